/// What a `select!` came to.
pub enum Sel<A, B, C, D> {
    A(A),
    B(B),
    C(C),
    D(D),
    Else,
}

pub async fn never() {
    std::future::pending::<()>().await
}

/// `select!`: polls the branches once per poll of the enclosing task, first to last, or last to
/// first if `model::choose` says so (never under `biased;`), and runs the handler of the first one
/// that is ready. A branch whose `if` is false, or whose pattern does not match, is disabled.
#[macro_export]
macro_rules! select {
    (biased; $($t:tt)*) => { $crate::__select!(@p true; []; $($t)*) };
    ($($t:tt)*) => { $crate::__select!(@p false; []; $($t)*) };
}

#[doc(hidden)]
#[macro_export]
macro_rules! __select {
    (@p $b:expr; [$($a:tt)*]; ) => { $crate::__select!(@e $b; [$($a)*]; panic!("all branches are disabled and there is no else branch")) };
    (@p $b:expr; [$($a:tt)*]; else => $h:expr $(,)?) => { $crate::__select!(@e $b; [$($a)*]; $h) };
    (@p $b:expr; [$($a:tt)*]; $p:pat = $f:expr, if $g:expr => $h:block, $($r:tt)*) => { $crate::__select!(@p $b; [$($a)* { $p, $f, $g, $h }]; $($r)*) };
    (@p $b:expr; [$($a:tt)*]; $p:pat = $f:expr, if $g:expr => $h:block $($r:tt)*) => { $crate::__select!(@p $b; [$($a)* { $p, $f, $g, $h }]; $($r)*) };
    (@p $b:expr; [$($a:tt)*]; $p:pat = $f:expr, if $g:expr => $h:expr, $($r:tt)*) => { $crate::__select!(@p $b; [$($a)* { $p, $f, $g, $h }]; $($r)*) };
    (@p $b:expr; [$($a:tt)*]; $p:pat = $f:expr, if $g:expr => $h:expr) => { $crate::__select!(@p $b; [$($a)* { $p, $f, $g, $h }]; ) };
    (@p $b:expr; [$($a:tt)*]; $p:pat = $f:expr => $h:block, $($r:tt)*) => { $crate::__select!(@p $b; [$($a)* { $p, $f, true, $h }]; $($r)*) };
    (@p $b:expr; [$($a:tt)*]; $p:pat = $f:expr => $h:block $($r:tt)*) => { $crate::__select!(@p $b; [$($a)* { $p, $f, true, $h }]; $($r)*) };
    (@p $b:expr; [$($a:tt)*]; $p:pat = $f:expr => $h:expr, $($r:tt)*) => { $crate::__select!(@p $b; [$($a)* { $p, $f, true, $h }]; $($r)*) };
    (@p $b:expr; [$($a:tt)*]; $p:pat = $f:expr => $h:expr) => { $crate::__select!(@p $b; [$($a)* { $p, $f, true, $h }]; ) };
    (@e $b:expr; [{ $p0:pat, $f0:expr, $g0:expr, $h0:expr } ]; $else:expr) => {{
        let __out = {
            let mut __d0 = !($g0);
            let mut __f0 = ::std::pin::pin!($f0);
            ::std::future::poll_fn(|__cx| {
                let __back = false;
                for __k in 0..1usize {
                    match if __back { 0 - __k } else { __k } {
                        _ => if !__d0 {
                            if let ::std::task::Poll::Ready(__v) = ::std::future::Future::poll(__f0.as_mut(), __cx) {
                                #[allow(unused_variables, unreachable_patterns)]
                                match &__v {
                                    $p0 => return ::std::task::Poll::Ready($crate::macros::Sel::A(__v)),
                                    _ => __d0 = true,
                                }
                            }
                        },
                    }
                }
                if __d0 { return ::std::task::Poll::Ready($crate::macros::Sel::Else); }
                ::std::task::Poll::Pending
            })
            .await
        };
        #[allow(unreachable_patterns)]
        match __out {
            $crate::macros::Sel::A($p0) => $h0,
            $crate::macros::Sel::Else => $else,
            $crate::macros::Sel::B(()) => unreachable!(),
            $crate::macros::Sel::C(()) => unreachable!(),
            $crate::macros::Sel::D(()) => unreachable!(),
            _ => unreachable!(),
        }
    }};
    (@e $b:expr; [{ $p0:pat, $f0:expr, $g0:expr, $h0:expr } { $p1:pat, $f1:expr, $g1:expr, $h1:expr } ]; $else:expr) => {{
        let __out = {
            let mut __d0 = !($g0);
            let mut __d1 = !($g1);
            let mut __f0 = ::std::pin::pin!($f0);
            let mut __f1 = ::std::pin::pin!($f1);
            ::std::future::poll_fn(|__cx| {
                let __back = !$b && $crate::model::choose($crate::model::Choice::SelectSecondFirst);
                for __k in 0..2usize {
                    match if __back { 1 - __k } else { __k } {
                        0 => if !__d0 {
                            if let ::std::task::Poll::Ready(__v) = ::std::future::Future::poll(__f0.as_mut(), __cx) {
                                #[allow(unused_variables, unreachable_patterns)]
                                match &__v {
                                    $p0 => return ::std::task::Poll::Ready($crate::macros::Sel::A(__v)),
                                    _ => __d0 = true,
                                }
                            }
                        },
                        _ => if !__d1 {
                            if let ::std::task::Poll::Ready(__v) = ::std::future::Future::poll(__f1.as_mut(), __cx) {
                                #[allow(unused_variables, unreachable_patterns)]
                                match &__v {
                                    $p1 => return ::std::task::Poll::Ready($crate::macros::Sel::B(__v)),
                                    _ => __d1 = true,
                                }
                            }
                        },
                    }
                }
                if __d0 && __d1 { return ::std::task::Poll::Ready($crate::macros::Sel::Else); }
                ::std::task::Poll::Pending
            })
            .await
        };
        #[allow(unreachable_patterns)]
        match __out {
            $crate::macros::Sel::A($p0) => $h0,
            $crate::macros::Sel::B($p1) => $h1,
            $crate::macros::Sel::Else => $else,
            $crate::macros::Sel::C(()) => unreachable!(),
            $crate::macros::Sel::D(()) => unreachable!(),
            _ => unreachable!(),
        }
    }};
    (@e $b:expr; [{ $p0:pat, $f0:expr, $g0:expr, $h0:expr } { $p1:pat, $f1:expr, $g1:expr, $h1:expr } { $p2:pat, $f2:expr, $g2:expr, $h2:expr } ]; $else:expr) => {{
        let __out = {
            let mut __d0 = !($g0);
            let mut __d1 = !($g1);
            let mut __d2 = !($g2);
            let mut __f0 = ::std::pin::pin!($f0);
            let mut __f1 = ::std::pin::pin!($f1);
            let mut __f2 = ::std::pin::pin!($f2);
            ::std::future::poll_fn(|__cx| {
                let __back = !$b && $crate::model::choose($crate::model::Choice::SelectSecondFirst);
                for __k in 0..3usize {
                    match if __back { 2 - __k } else { __k } {
                        0 => if !__d0 {
                            if let ::std::task::Poll::Ready(__v) = ::std::future::Future::poll(__f0.as_mut(), __cx) {
                                #[allow(unused_variables, unreachable_patterns)]
                                match &__v {
                                    $p0 => return ::std::task::Poll::Ready($crate::macros::Sel::A(__v)),
                                    _ => __d0 = true,
                                }
                            }
                        },
                        1 => if !__d1 {
                            if let ::std::task::Poll::Ready(__v) = ::std::future::Future::poll(__f1.as_mut(), __cx) {
                                #[allow(unused_variables, unreachable_patterns)]
                                match &__v {
                                    $p1 => return ::std::task::Poll::Ready($crate::macros::Sel::B(__v)),
                                    _ => __d1 = true,
                                }
                            }
                        },
                        _ => if !__d2 {
                            if let ::std::task::Poll::Ready(__v) = ::std::future::Future::poll(__f2.as_mut(), __cx) {
                                #[allow(unused_variables, unreachable_patterns)]
                                match &__v {
                                    $p2 => return ::std::task::Poll::Ready($crate::macros::Sel::C(__v)),
                                    _ => __d2 = true,
                                }
                            }
                        },
                    }
                }
                if __d0 && __d1 && __d2 { return ::std::task::Poll::Ready($crate::macros::Sel::Else); }
                ::std::task::Poll::Pending
            })
            .await
        };
        #[allow(unreachable_patterns)]
        match __out {
            $crate::macros::Sel::A($p0) => $h0,
            $crate::macros::Sel::B($p1) => $h1,
            $crate::macros::Sel::C($p2) => $h2,
            $crate::macros::Sel::Else => $else,
            $crate::macros::Sel::D(()) => unreachable!(),
            _ => unreachable!(),
        }
    }};
    (@e $b:expr; [{ $p0:pat, $f0:expr, $g0:expr, $h0:expr } { $p1:pat, $f1:expr, $g1:expr, $h1:expr } { $p2:pat, $f2:expr, $g2:expr, $h2:expr } { $p3:pat, $f3:expr, $g3:expr, $h3:expr } ]; $else:expr) => {{
        let __out = {
            let mut __d0 = !($g0);
            let mut __d1 = !($g1);
            let mut __d2 = !($g2);
            let mut __d3 = !($g3);
            let mut __f0 = ::std::pin::pin!($f0);
            let mut __f1 = ::std::pin::pin!($f1);
            let mut __f2 = ::std::pin::pin!($f2);
            let mut __f3 = ::std::pin::pin!($f3);
            ::std::future::poll_fn(|__cx| {
                let __back = !$b && $crate::model::choose($crate::model::Choice::SelectSecondFirst);
                for __k in 0..4usize {
                    match if __back { 3 - __k } else { __k } {
                        0 => if !__d0 {
                            if let ::std::task::Poll::Ready(__v) = ::std::future::Future::poll(__f0.as_mut(), __cx) {
                                #[allow(unused_variables, unreachable_patterns)]
                                match &__v {
                                    $p0 => return ::std::task::Poll::Ready($crate::macros::Sel::A(__v)),
                                    _ => __d0 = true,
                                }
                            }
                        },
                        1 => if !__d1 {
                            if let ::std::task::Poll::Ready(__v) = ::std::future::Future::poll(__f1.as_mut(), __cx) {
                                #[allow(unused_variables, unreachable_patterns)]
                                match &__v {
                                    $p1 => return ::std::task::Poll::Ready($crate::macros::Sel::B(__v)),
                                    _ => __d1 = true,
                                }
                            }
                        },
                        2 => if !__d2 {
                            if let ::std::task::Poll::Ready(__v) = ::std::future::Future::poll(__f2.as_mut(), __cx) {
                                #[allow(unused_variables, unreachable_patterns)]
                                match &__v {
                                    $p2 => return ::std::task::Poll::Ready($crate::macros::Sel::C(__v)),
                                    _ => __d2 = true,
                                }
                            }
                        },
                        _ => if !__d3 {
                            if let ::std::task::Poll::Ready(__v) = ::std::future::Future::poll(__f3.as_mut(), __cx) {
                                #[allow(unused_variables, unreachable_patterns)]
                                match &__v {
                                    $p3 => return ::std::task::Poll::Ready($crate::macros::Sel::D(__v)),
                                    _ => __d3 = true,
                                }
                            }
                        },
                    }
                }
                if __d0 && __d1 && __d2 && __d3 { return ::std::task::Poll::Ready($crate::macros::Sel::Else); }
                ::std::task::Poll::Pending
            })
            .await
        };
        #[allow(unreachable_patterns)]
        match __out {
            $crate::macros::Sel::A($p0) => $h0,
            $crate::macros::Sel::B($p1) => $h1,
            $crate::macros::Sel::C($p2) => $h2,
            $crate::macros::Sel::D($p3) => $h3,
            $crate::macros::Sel::Else => $else,
            _ => unreachable!(),
        }
    }};
}

/// `join!`: polls all futures, first to last, until all are ready.
#[macro_export]
macro_rules! join {
    ($($f:expr),+ $(,)?) => { $crate::__join!([]; $($f,)+) };
}
#[doc(hidden)]
#[macro_export]
macro_rules! __join {
    ([$($n:ident $e:expr;)*]; $f:expr, $g:expr, $h:expr, $i:expr, ) => { $crate::__join!(@ a $f; b $g; c $h; d $i;) };
    ([$($n:ident $e:expr;)*]; $f:expr, $g:expr, $h:expr, ) => { $crate::__join!(@ a $f; b $g; c $h;) };
    ([$($n:ident $e:expr;)*]; $f:expr, $g:expr, ) => { $crate::__join!(@ a $f; b $g;) };
    ([$($n:ident $e:expr;)*]; $f:expr, ) => { $crate::__join!(@ a $f;) };
    (@ $($n:ident $e:expr;)+) => {{
        $(let mut $n = ($crate::macros::Joined::Waiting(::std::boxed::Box::pin($e)));)+
        ::std::future::poll_fn(|cx| {
            let mut all = true;
            $(all &= $n.poll(cx);)+
            if all { ::std::task::Poll::Ready(()) } else { ::std::task::Poll::Pending }
        })
        .await;
        ($($n.take()),+)
    }};
}
pub enum Joined<F: std::future::Future> {
    Waiting(std::pin::Pin<Box<F>>),
    Ready(F::Output),
    Taken,
}
impl<F: std::future::Future> Joined<F> {
    pub fn poll(&mut self, cx: &mut std::task::Context<'_>) -> bool {
        if let Joined::Waiting(f) = self {
            if let std::task::Poll::Ready(v) = f.as_mut().poll(cx) {
                *self = Joined::Ready(v);
            }
        }
        !matches!(self, Joined::Waiting(_))
    }
    pub fn take(&mut self) -> F::Output {
        match std::mem::replace(self, Joined::Taken) {
            Joined::Ready(v) => v,
            _ => unreachable!(),
        }
    }
}

#[macro_export]
macro_rules! pin {
    ($($x:ident),* $(,)?) => { $(
        let mut $x = $x;
        #[allow(unused_mut)]
        let mut $x = unsafe { ::std::pin::Pin::new_unchecked(&mut $x) };
    )* };
}
