"""Which harness entries decide which property. `bounds` says what the entry covers."""
CLOCK_FNS = ["cur_timestamp_millis"]  # replaced in entries with clock=True: the division of a symbolic clock is beyond the solver


def E(entry, bounds, **k):
    return dict(entry=entry, bounds=bounds, **k)


def T(entry, bounds, **k):
    """Thorough tier only; `replaces` names the quick entry it contains."""
    return dict(entry=entry, bounds=bounds, thorough=True, **k)


CHECKS = {
 "C01": {"feature": "wire", "entries": [
    E("h_frame_roundtrip", "one frame, all reliabilities and flags, all index bits, payload of 0..3 symbolic bytes"),
    E("h_frame_roundtrip_big", "one frame, payload lengths around 32, 255, 1024, 1400, 2048, 4096, 8191"),
    E("h_frames_datagram", "two frames in a datagram"),
    E("h_rewrite", "a received datagram of two frames encoded again", covers=["end"]),
    T("h_frames_datagram_t", "three frames in a datagram", replaces="h_frames_datagram")]},
 "C02": {"feature": "wire", "entries": [E("h_control", "all 14 messages, all scalar fields symbolic, all IPv4 and IPv6 addresses and ports, strings of up to 65535 bytes, four of them symbolic")]},
 "C03": {"feature": "wire", "entries": [E("h_ack_codec", "0..4 records, all 24-bit bounds, ACK and NACK"),
    T("h_ack_codec_t", "0..8 records", replaces="h_ack_codec"),
    E("h_ack_codec_many", "256 and 300 records, one of them symbolic", covers=["ack", "nack"]),
    T("h_ack_codec_many_t", "1000 and 9000 records", replaces="h_ack_codec_many")]},
 "C04": {"feature": "wire", "entries": [
    E("h_decode_control_any", "every message decoder on all byte strings of up to 44 bytes"),
    E("h_decode_frames_any", "frame decoder on all byte strings of up to 24 bytes"),
    E("h_decode_mutated", "valid datagrams cut short or with symbolic bytes anywhere in the header"),
    T("h_decode_frames_any_t", "frame decoder, up to 30 bytes", replaces="h_decode_frames_any")],
    "outside": ["longer datagrams of arbitrary content"]},
 "C05": {"feature": "wire", "entries": [
    E("h_frame_layout", "all reliabilities and flags, all index bits, short symbolic payloads"),
    E("h_frame_layout_big", "payload lengths around 32, 255, 1024, 1400, 2048, 4096, 8191"),
    E("h_control", "all 14 control messages, all scalar fields, IPv4 and IPv6 addresses"),
    E("h_ack_codec", "0..4 acknowledgement records, all 24-bit bounds"),
    T("h_ack_codec_t", "0..8 acknowledgement records", replaces="h_ack_codec")]},
 "C06": {"feature": "recv", "entries": [
    E("h_sock_ordered", "a connection at either end; 5 arrivals of any of 3 messages, with a tick between them or not", covers=["all delivered", "several at once", "end"], feature="net"),
    T("h_sock_ordered_t", "7 arrivals of any of 4 messages", replaces="h_sock_ordered", feature="net"),
    E("h_sock_ordered_shared", "a connection; 4 arrivals of any of 3 messages, any of them in one datagram", covers=["all delivered", "shared", "end"], feature="net"),
    T("h_sock_ordered_shared_t", "6 arrivals", replaces="h_sock_ordered_shared", feature="net"),
    E("h_sock_burst", "a connection at either end; 125 messages of any kind in one datagram, or ordered ones released by a late one, before any is read", covers=["end", "late"], feature="net", max_steps=100_000_000),
    E("h_sock_ordered_unread", "a connection; 60 messages read at the end, any one of them late", covers=["end"], feature="net"),
    T("h_sock_ordered_unread_t", "99 messages", replaces="h_sock_ordered_unread", feature="net"),
    E("h_packed", "a connection; 80 frames in one datagram", covers=["end"], feature="net"),
    E("h_ordered", "5 arrivals, any 24-bit order index each, flush after each", covers=["all delivered", "held back"]),
    E("h_ordered_mixed", "3 ordered arrivals with any other frames between, any flush points", covers=["all delivered"]),
    E("h_ordered_batch", "4 arrivals, any flush points", covers=["several at once"]),
    E("h_ordered_later", "3 messages in any order, with repeats and late duplicates, after 300 in-order ones", covers=["all delivered", "late duplicate"]),
    E("h_ordered_backlog", "600 messages waiting for one of the first three", covers=["all delivered"], max_steps=100_000_000),
    E("h_ordered_far", "every order of the messages numbered 65534 to 65537", covers=["all delivered"], max_steps=100_000_000),
    T("h_ordered_far_t", "131070 to 131073", replaces="h_ordered_far", max_steps=1_000_000_000),
    E("h_beside_backlog", "40, 200 or 1100 ordered messages waiting, one of each other kind beside them", covers=["all delivered"], max_steps=100_000_000),
    T("h_ordered_backlog_t", "1500 messages waiting for one of the first eight", replaces="h_ordered_backlog", max_steps=2_000_000_000),
    T("h_ordered_t", "7 arrivals", replaces="h_ordered"), T("h_ordered_mixed_t", "4 arrivals", replaces="h_ordered_mixed"),
    T("h_ordered_batch_t", "6 arrivals", replaces="h_ordered_batch"), T("h_ordered_later_t", "4 messages after 2000", replaces="h_ordered_later")],
    "outside": ["more than 2^24 messages (numbers do not wrap)"]},
 "C07": {"feature": "recv", "entries": [
    E("h_sock_burst", "a connection at either end; 125 messages of any kind in one datagram, or ordered ones released by a late one, before any is read", covers=["end", "late"], feature="net", max_steps=100_000_000),
    E("h_sock_sequenced", "a connection at either end; 4 arrivals with any numbers, alone or beside other traffic", covers=["newer", "older", "end"], feature="net"),
    T("h_sock_sequenced_t", "6 arrivals", replaces="h_sock_sequenced", feature="net"),
    E("h_sequenced", "5 arrivals, any 24-bit index, both reliabilities", covers=["newer", "older"]),
    E("h_sequenced_mixed", "3 arrivals with other traffic between", covers=["newer", "older"]),
    E("h_beside_backlog", "beside 40, 200 or 1100 ordered messages that wait", covers=["all delivered"], max_steps=100_000_000),
    T("h_sequenced_t", "7 arrivals", replaces="h_sequenced"), T("h_sequenced_mixed_t", "4 arrivals", replaces="h_sequenced_mixed")],
    "outside": ["several sequenced frames inserted before one flush (the socket flushes after each)"]},
 "C08": {"feature": "recv", "entries": [
    E("h_sock_burst", "a connection at either end; 125 messages of any kind in one datagram, or ordered ones released by a late one, before any is read", covers=["end", "late"], feature="net", max_steps=100_000_000),
    E("h_sock_immediate", "a connection at either end; 3 messages in datagrams of four numbers, repeated ones too, beside held-back messages or not", covers=["repeated", "end"], feature="net"),
    T("h_sock_immediate_t", "4 messages", replaces="h_sock_immediate", feature="net"),
    E("h_packed", "a connection; 80 frames in one datagram", covers=["end"], feature="net"),
    E("h_immediate", "3 arrivals with any distinct datagram numbers, any flush points, beside held-back frames", covers=["several", "end"]),
    E("h_reliable_again", "one reliable message received twice, any message number", covers=["arrival"]),
    E("h_beside_backlog", "beside 40, 200 or 1100 ordered messages that wait", covers=["all delivered"], max_steps=100_000_000),
    T("h_beside_backlog_t", "beside 2500 or 5000", replaces="h_beside_backlog", max_steps=2_000_000_000),
    T("h_immediate_t", "4 arrivals", replaces="h_immediate")]},
 "C09": {"feature": "recv", "entries": [
    E("h_sock_reassembly", "a connection at either end; messages of 2, 1 and 3 parts, every permutation", covers=["all delivered", "end"], feature="net"),
    E("h_sock_reassembly_dup", "a connection; 5 arrivals of any of the parts", covers=["repeated", "end"], feature="net"),
    T("h_sock_reassembly_dup_t", "7 arrivals", replaces="h_sock_reassembly_dup", feature="net"),
    E("h_reassembly_unordered", "a reliable or reliable sequenced message split in two", covers=["arrival"]),
    E("h_reassembly", "messages of 3, 1 and 2 parts, every permutation, compound ids across the 16-bit wrap", covers=["all delivered", "two messages at once"]),
    E("h_reassembly_dup", "two messages of 2 fragments, 6 arbitrary arrivals", covers=["duplicate fragment", "all delivered"]),
    E("h_reassembly_perm", "5 fragments, every permutation", covers=["all delivered"]),
    E("h_reassembly_long", "40 fragments, every rotation, both directions, any compound id", covers=["complete"]),
    E("h_reassembly_huge", "300 fragments in order, backwards or with the first one late, beside an incomplete message", covers=["complete"], max_steps=100_000_000),
    T("h_reassembly_huge_t", "1100 fragments", replaces="h_reassembly_huge", max_steps=2_000_000_000),
    E("h_reassembly_many", "40 messages of 3 fragments interleaved, any one completed last, compound ids across the 16-bit wrap", covers=["complete"], max_steps=100_000_000),
    E("h_reassembly_ids", "2 messages of 2 fragments with any two different compound ids, interleaved in any way", covers=["all delivered"]),
    E("h_together", "3 messages of 1, 339..341, 680 or 681 bytes at once at MTU 400, arriving in any rotation of either order, any datagram repeated", covers=["end", "reversed"], feature="send"),
    T("h_together_t", "4 messages", replaces="h_together", feature="send"),
    E("h_sock_large", "a connection at either end; 65534 to 70000 bytes, last two fragments in either order", covers=["end"], feature="net", max_steps=1_000_000_000),
    T("h_sock_large_t", "131071 to 1000000 bytes", replaces="h_sock_large", feature="net", max_steps=10_000_000_000),
    E("h_reassembly_crowd", "300 messages, the first, second, middle or last completed last, each complete one delivered at once", covers=["complete"], max_steps=1_000_000_000),
    T("h_reassembly_many_t", "400 messages", replaces="h_reassembly_many", max_steps=2_000_000_000),
    E("h_fragments_hostile", "3 frames with all fragment headers", covers=["accepted", "merged"]),
    T("h_reassembly_dup_t", "messages of 2, 3 and 1 parts, 8 arbitrary arrivals", replaces="h_reassembly_dup"),
    T("h_reassembly_perm_t", "4 and 3 fragments, every permutation", replaces="h_reassembly_perm"),
    T("h_reassembly_long_t", "256 fragments", replaces="h_reassembly_long"),
    T("h_fragments_hostile_t", "4 hostile frames", replaces="h_fragments_hostile")],
    "outside": ["compound ids reused while the earlier message is incomplete"]},
 "C10": {"feature": "recv", "entries": [
    E("h_promptly", "a connection at either end; 4 datagrams, any of the first 3 missing or late, a tick after any", covers=["late", "missing", "end"], feature="net"),
    E("h_promptly_many", "a connection; 300 separate gaps within one tick", covers=["end"], max_steps=200_000_000, feature="net"),
    E("h_promptly_idle", "a connection after 0 to 50 s without traffic", covers=["end"], feature="net"),
    E("h_promptly_last", "a connection at either end ended by its peer; the last datagram up to 2 numbers on, with or without messages around the notice", covers=["end"], feature="net"),
    E("h_acks", "4 arrivals of any numbers in a window of 16 (low end and top of the number space), any report points", covers=["end", "merged range"]),
    E("h_acks_any", "3 arrivals of any 24-bit numbers", covers=["end", "merged range"]),
    E("h_acks_kinds", "2 arrivals, every kind of frame, any numbers", covers=["end"]),
    E("h_ordered_far", "duplicates of messages delivered 3 to 65534 messages ago", covers=["all delivered"], max_steps=100_000_000),
    E("h_acks_many", "300 separate ranges in one report", covers=["end"], max_steps=100_000_000),
    T("h_acks_many_t", "1000 separate ranges in one report", replaces="h_acks_many", max_steps=1_000_000_000),
    T("h_acks_t", "5 arrivals, window of 32", replaces="h_acks"), T("h_acks_kinds_t", "3 arrivals", replaces="h_acks_kinds")]},
 "C11": {"feature": "recv", "entries": [
    E("h_promptly", "a connection at either end; 4 datagrams, any of the first 3 missing or late, a tick after any", covers=["late", "missing", "end"], feature="net"),
    E("h_promptly_many", "a connection; 300 separate gaps within one tick", covers=["end"], max_steps=200_000_000, feature="net"),
    E("h_promptly_idle", "a connection after 0 to 50 s without traffic", covers=["end"], feature="net"),
    E("h_nacks", "4 arrivals of any numbers in 0..15, any report points", covers=["gap", "end"]),
    E("h_nacks_any", "3 arrivals of any 24-bit numbers", covers=["gap", "end"]),
    E("h_acks_many", "300 separate gaps in one report", covers=["end"]),
    T("h_nacks_t", "6 arrivals in 0..31", replaces="h_nacks"), T("h_nacks_any_t", "4 arrivals", replaces="h_nacks_any")]},
 "C12": {"feature": "send", "entries": [
    E("h_mtu", "a connection at either end; eleven announced MTUs from 0 to 65535, a message of 5000 bytes", covers=["end"], feature="net"),
    T("h_mtu_t", "40000 bytes", replaces="h_mtu", max_steps=200_000_000, feature="net"),
    E("h_fragmentation", "MTU 1400, lengths around every boundary up to 4 fragments, after 0..2 earlier split messages", covers=["fragmented", "whole"]),
    E("h_fragmentation_small", "MTU 400, up to 12 fragments", covers=["fragmented", "whole"]),
    E("h_any_mtu", "announced MTU in 0..120, 380..420, 1390..1510, 65000..65535; 4 lengths, all reliabilities", covers=["sent", "too big"]),
    E("h_together", "3 messages of 1, 339..341, 680 or 681 bytes at once at MTU 400, arriving in any rotation of either order, any datagram repeated", covers=["end", "reversed"]),
    T("h_together_t", "4 messages", replaces="h_together"),
    E("h_huge", "a message of 70 000 bytes, MTU 1400, fragments in order or backwards", covers=["end"]),
    T("h_huge_t", "300 000 bytes, MTU 576", replaces="h_huge", max_steps=2_000_000_000),
    E("h_fragmentation_many", "MTU 400; 255, 256, 257 or 300 fragments, last one full, one byte short or of one byte", covers=["fragmented"], max_steps=200_000_000),
    T("h_fragmentation_many_t", "511, 512, 513 or 1025 fragments", replaces="h_fragmentation_many", max_steps=5_000_000_000),
    T("h_fragmentation_t", "MTU 1492, up to 20 fragments")],
    "outside": ["message lengths and MTUs between the stated ones"]},
 "C13": {"feature": "send", "entries": [
    E("h_sock_limit", "a connection at either end; lengths of seven sizes, then further messages", covers=["accepted", "refused", "end"], feature="net"),
    E("h_limit", "MTU 1400, lengths limit-8..limit+8 and far from it", covers=["accepted", "refused"]),
    E("h_limit_small", "MTU 400", covers=["accepted", "refused"])]},
 "C14": {"feature": "send", "entries": [
    E("h_sock_sender_two", "a connection; 2 messages, 3 steps", covers=["ack", "again", "end"], feature="net"),
    E("h_applied", "a connection; 4 messages outstanding; ACK or NACK of two arbitrary ranges of them", covers=["ack", "nack", "end"], feature="net"),
    E("h_sock_sender", "a connection at either end; 3 messages of any kinds, 2 steps of acknowledge / report missing / wait", covers=["ack", "again", "end"], feature="net"),
    T("h_sock_sender_t", "4 steps", replaces="h_sock_sender", feature="net"),
    E("h_retained", "2 messages of any kinds, 4 steps (acknowledge any number / wait 0, 40, 120 or 9000 ms and flush)", covers=["all acknowledged", "retransmission", "sent again"]),
    E("h_applied_wide", "a connection; 1100 messages that waited", covers=["ack", "nack", "end"], max_steps=1_000_000_000, feature="net"),
    E("h_retained_three", "3 messages, 2 steps", covers=["sent again"]),
    E("h_retained_nack", "2 messages, 3 steps, negative acknowledgements of any number too", covers=["all acknowledged", "sent again"]),
    E("h_retained_wait", "1 message, 2 steps, symbolic waits below 65.5 s", covers=["sent again"]),
    E("h_retained_long", "one message, 24 retransmissions, any of them acknowledged", covers=["end"]),
    E("h_retained_many", "301 messages, 2 retransmissions, any transmission of the first, middle or last acknowledged", covers=["end"], max_steps=100_000_000),
    T("h_retained_long_t", "21 messages, 30 retransmissions"),
    T("h_retained_t", "3 messages, 3 steps, symbolic waits"), T("h_retained_three_t", "3 messages, 4 steps", replaces="h_retained_three"),
    T("h_retained_nack_t", "2 messages, 3 steps, symbolic waits")]},
 "C15": {"feature": "send", "entries": [
    E("h_sock_timing", "a connection at either end; each reliable kind, four measured round trips, 8 retransmissions", covers=["end"], feature="net"),
    T("h_sock_timing_t", "13 retransmissions", replaces="h_sock_timing", feature="net"),
    E("h_timing", "two retransmissions, any clock value, symbolic waits", covers=["again", "not yet"]),
    E("h_timing_rtt", "one retransmission after a symbolic measured round trip", covers=["again", "not yet"]),
    E("h_timing_long", "up to 24 retransmissions, then a symbolic wait; initial timeout and one measured", covers=["again", "not yet"]),
    T("h_timing_long_t", "up to 70 retransmissions, three initial timeouts", replaces="h_timing_long"),
    T("h_timing_t", "4 retransmissions", replaces="h_timing"), T("h_timing_rtt_t", "2 retransmissions", replaces="h_timing_rtt")]},
 "C16": {"feature": "send", "entries": [
    E("h_sock_rto", "a connection at either end; 12 round trips of 0, 10, 3000 or 40000 ms or with the clock set back", covers=["least", "greatest", "end"], feature="net"),
    T("h_sock_rto_t", "60 round trips", replaces="h_sock_rto", max_steps=200_000_000, feature="net"),
    E("h_rto", "one symbolic measurement: 0..65535 ms, as much backwards, or k*2^32 ms", covers=["floor", "ceiling", "grown"]),
    E("h_rto_long", "40 measurements of one of ten sizes, then any one of +-32 s", covers=["end"]),
    T("h_rto_t", "two measurements", replaces="h_rto")], "outside": ["more than two consecutive symbolic measurements"]},
 "C17": {"feature": "send", "entries": [
    E("h_applied", "a connection; 4 messages outstanding; ACK or NACK of two arbitrary ranges of them", covers=["ack", "nack", "end"], feature="net"),
    E("h_sock_sender", "a connection at either end; 3 messages of any kinds, 2 steps of acknowledge / report missing / wait", covers=["nack", "again", "end"], feature="net"),
    T("h_sock_sender_t", "4 steps", replaces="h_sock_sender", feature="net"),
    E("h_nacked", "3 messages of any kinds, any range reported missing or any number acknowledged", covers=["nacked", "overtaken"]),
    E("h_nacked_many", "60 messages of all kinds or 100 ordered ones, any of them acknowledged or any of three ranges below it reported missing", covers=["nacked", "overtaken"]),
    E("h_nacked_again", "0..40 negative acknowledgements of one message, then any number", covers=["nacked", "other"]),
    T("h_nacked_many_t", "400 messages", replaces="h_nacked_many")]},
 "C18": {"feature": "send", "entries": [
    E("h_sock_sender", "a connection at either end; 3 messages of any kinds, 2 steps of acknowledge / report missing / wait", covers=["again", "end"], feature="net"),
    T("h_sock_sender_t", "4 steps", replaces="h_sock_sender", feature="net"),
    E("h_retained_nack", "2 messages, 3 steps of acknowledge / report missing / wait", covers=["retransmission"]),
    E("h_numbering", "3 messages of any kinds, one of them acknowledged and the rest retransmitted", covers=["end", "one acknowledged"]),
    E("h_nacked", "3 messages, any range reported missing", covers=["retransmission"]),
    E("h_retained_long", "24 retransmissions of one message", covers=["end"]),
    E("h_many_messages", "132 000 datagrams in a row", covers=["end"], max_steps=400_000_000),
    T("h_retained_t", "3 messages, 3 steps, symbolic waits")], "outside": ["more than 2^24 datagrams"]},
 "C19": {"feature": "send", "entries": [
    E("h_sock_sender", "a connection at either end; 3 messages of any kinds, 2 steps of acknowledge / report missing / wait", covers=["mixed", "end"], feature="net"),
    T("h_sock_sender_t", "4 steps", replaces="h_sock_sender", feature="net"),
    E("h_numbering", "3 messages of any kinds (split ones and those that just fill a datagram included), any flush points", covers=["end", "two compounds"]),
    E("h_many_messages", "66 000 reliable and sequenced messages in a row", covers=["end"], max_steps=400_000_000),
    E("h_many_compounds", "65 538 ordered messages in a row", covers=["end"], max_steps=400_000_000),
    E("h_compounds_outstanding", "300 split messages outstanding at once", covers=["end"], max_steps=100_000_000),
    T("h_compounds_outstanding_t", "5000 split messages", replaces="h_compounds_outstanding", max_steps=2_000_000_000),
    T("h_numbering_t", "4 messages", replaces="h_numbering")]},
 "C20": {"feature": "send", "entries": [
    E("h_both", "a client and a server; each single one of the first 40 datagrams lost, repeated or delayed", covers=["lost", "repeated", "delayed", "end"], feature="net"),
    E("h_together", "3 messages of 1, 339..341, 680 or 681 bytes at once at MTU 400, arriving in any rotation of either order, any datagram repeated", covers=["end", "reversed"]),
    T("h_together_t", "4 messages", replaces="h_together"),
    E("h_e2e_ordered", "2 ordered messages, all sequences of 5 network events", covers=["end", "lost", "repeated"]),
    E("h_e2e_fragment", "1 split message, 4 events", covers=["end", "lost", "repeated"]),
    E("h_e2e_mixed", "reliable, reliable sequenced and ordered message, 4 events", covers=["end", "lost", "repeated"]),
    E("h_outage", "8 messages of all kinds, 1, 6, 24 or 40 rounds without datagrams or acknowledgements, then any one loss", covers=["end"]),
    E("h_outage_many", "150 messages, 2 rounds of outage, then any one loss", covers=["end"]),
    T("h_outage_t", "20 messages, 3, 12 or 70 rounds", replaces="h_outage"),
    T("h_e2e_ordered_t", "3 messages, 6 events"), T("h_e2e_fragment_t", "2 messages, 5 events"), T("h_e2e_mixed_t", "4 messages, 5 events")]},
 "C21": {"feature": "net", "entries": [
    E("h_hostile_frames", "either end; one frame datagram of 5, 8, 11 or 14 arbitrary bytes, number near or at the top", covers=["end"]),
    E("h_hostile_other", "either end; 1, 2, 12 or 30 arbitrary bytes that are neither frames nor acknowledgements", covers=["end"]),
    E("h_hostile_control", "either end; a frame of any reliability around any control message cut or filled to 1..96 bytes", covers=["end"]),
    E("h_hostile_acks", "either end; ACK and NACK of 3..11 bytes with arbitrary counts and records, 1 or 2 messages outstanding", covers=["end"]),
    T("h_hostile_frames_t", "17 arbitrary bytes"), T("h_hostile_control_t", "more lengths", replaces="h_hostile_control"),
    T("h_hostile_acks_t", "13..17 bytes")],
    "outside": ["longer arbitrary frame datagrams; acknowledgement numbers above 255 in one record (cost is proportional to the range)"]},
 "C22": {"feature": "net", "entries": [
    E("h_control_replies", "either end; each control message with symbolic fields at any clock value, under each reliability, followed by a user message", covers=["ping", "request", "accepted", "no answer", "end"], clock=True),
    E("h_control_clock", "the same at nine clock values, with the real clock function", covers=["ping", "request", "accepted", "no answer", "end"]),
    E("h_control_busy", "either end; two pings or requests with arbitrary times while messages are outstanding, unread, or incomplete", covers=["outstanding", "unread", "gap", "end"]),
    E("h_control_many", "either end; 40 pings within one tick, in datagrams of their own or in one, any one with a symbolic time", covers=["packed", "end"]),
    T("h_control_many_t", "130 pings", replaces="h_control_many", max_steps=200_000_000)]},
 "C23": {"feature": "net", "entries": [
    E("h_send_any", "either end; open, closed, disconnected or timed out; any first byte; lengths 0..3, limit-1..limit+1, 3000, 66 000 and 1 100 000; all reliabilities", max_steps=1_000_000_000, covers=["sent", "refused", "closed"]),
    E("h_send_while_closing", "either end; a 16-fragment and a short message being sent while the connection ends, scheduling choices arbitrary for 3 points", covers=["sent", "closed"])]},
 "C24": {"feature": "net", "entries": [
    E("h_close", "either end; 0..2 unread messages, 0..1 outstanding; 4 arbitrary scheduling choices", covers=["end"]),
    E("h_send_fails_close", "either end; closed or dropped while any of 6 sends fail", covers=["end"]),
    E("h_end_unread", "connecting side; 3, 99, 100, 101, 109, 111 or 125 messages nobody has read, then close() or the peer's disconnect", covers=["close", "disconnect", "end"]),
    T("h_end_unread_t", "98, 102, 110, 112, 150 or 400 unread messages", replaces="h_end_unread")]},
 "C25": {"feature": "net", "entries": [
    E("h_disconnected", "either end; raw, framed with each reliability, or between two messages of a datagram, followed by 0, 1 or 5 arbitrary bytes; 3 arbitrary scheduling choices", covers=["framed", "in between", "end"])]},
 "C26": {"feature": "net", "entries": [
    E("h_flush", "either end; 2 messages of any kinds, 3 steps of acknowledge any number / wait / disconnect", covers=["flushed", "closed", "end"]),
    E("h_flush_patient", "either end; each reliable kind, 0..12 retransmissions before the acknowledgement of any of them, a second message or not", covers=["end", "another"]),
    E("h_flush_silent", "either end; each reliable kind; the peer is silent for 1 to 59 s and acknowledges then, or for good", covers=["closed", "acknowledged", "end"]),
    T("h_flush_patient_t", "0..25 retransmissions", replaces="h_flush_patient"),
    T("h_flush_t", "5 steps", replaces="h_flush")]},
 "C27": {"feature": "net", "entries": [
    E("h_idle", "either end; nothing, an unacknowledged, a held back or an incomplete message; 2 symbolic gaps of 0..90 s, five kinds of datagrams", covers=["timed out", "heard", "unacknowledged", "held back", "incomplete"], clock=True),
    E("h_idle_clock", "the same with 3 gaps of eight lengths, with the real clock function", covers=["timed out", "heard"]),
    T("h_idle_t", "3 gaps", replaces="h_idle", clock=True)]},
 "C28": {"feature": "net", "entries": [
    E("h_connect_lossy", "any version byte, MTU 576..1492, one step lost 1, 2 or (first two steps) 20 times, repeated or foreign answers", covers=["lost", "end"]),
    E("h_connect_any", "1 or 8 arbitrary bytes at each step", covers=["connected"]),
    E("h_connect_garbage", "first two steps, 1..40 bytes behind each relevant message id", covers=["connected", "refused", "malformed"]),
    E("h_connect_garbage_late", "last step, 1..12 bytes behind each relevant message id", covers=["connected"]),
    E("h_connect_refused", "incompatible version of any content; disconnect or silence before the acceptance", covers=["version", "gone"]),
    E("h_send_fails_connect", "sends failing at each step", covers=["end", "failed"])]},
 "C29": {"feature": "net", "entries": [
    E("h_dropped", "either end; 0..2 unread messages, 0..1 outstanding, in the middle of recv() or not; both task orders and 4 arbitrary scheduling choices", covers=["end"]),
    E("h_dropped_early", "listener, accepted connection and connect() dropped before their tasks ran; 4 arbitrary scheduling choices", covers=["listener", "connection", "connect", "end"])]},
 "C30": {"feature": "net", "entries": [
    E("h_hostile_listener", "1, 2, 12 or 40 arbitrary bytes from a known or unknown address", covers=["end"]),
    E("h_hostile_requests", "pings and connection requests of 18..40 bytes with arbitrary content", covers=["end", "session"]),
    E("h_hostile_history", "2 datagrams in a row (empty, disconnect, ping, any single byte, frames, cut frames), each from an unknown or known address", covers=["end", "gone"]),
    E("h_send_fails_listener", "2 datagrams, any of the answers cannot be sent", covers=["end", "failed"]),
    T("h_hostile_history_t", "3 datagrams in a row", replaces="h_hostile_history")]},
 "C31": {"feature": "net", "entries": [
    E("h_pong", "2 pings of either kind with any content; motd default, set before (5 to 65000 bytes) or after listen(), or made of its fields", covers=["end", "fields"]),
    E("h_ping", "any clock value, any round trip below 5 s, any remote clock, 0, 1, 2 or 20 pings lost", covers=["pong", "lost"], clock=True),
    E("h_ping_clock", "nine clock values and five round trips, with the real clock function", covers=["pong", "lost"]),
    E("h_ping_motd", "motds of 0, 1, 255, 256, 989, 990, 1437 and 2000 bytes", covers=["pong", "lost"], clock=True),
    T("h_ping_motd_t", "motds of 988, 991, 1400, 4096, 16000 and 65472 bytes", replaces="h_ping_motd", clock=True),
    E("h_ping_garbage", "an arbitrary answer of 1, 20 or 36 bytes first", covers=["pong", "garbage", "answered"]),
    T("h_ping_garbage_t", "34..38 bytes", replaces="h_ping_garbage"),
    E("h_backlog", "pings of both kinds while 9 to 12 connections wait", covers=["accept"])]},
 "C32": {"feature": "net", "entries": [
    E("h_version", "2 peers, 3 requests, all 256 versions each, 3 paddings", covers=["supported", "refused", "end"]),
    E("h_version_connected", "a connected peer; 3 further first requests with any version, pings, or second requests of its own or another client up to 12 s later; then the next session", covers=["supported", "refused", "ping", "request", "end"]),
    T("h_version_connected_t", "5 of them", replaces="h_version_connected"),
    E("h_version_many", "120 peers ask before any goes on, none or 12 of them go on before one with any version", covers=["end", "others"], max_steps=200_000_000),
    T("h_version_many_t", "250 peers", replaces="h_version_many", max_steps=2_000_000_000)]},
 "C33": {"feature": "net", "entries": [
    E("h_sessions", "2 peers, all sequences of 4 events (request by either of two clients, data, disconnect, wait)", covers=["again", "new", "data", "disconnect", "end"]),
    E("h_version_connected", "a connected peer; 3 further first requests with any version, pings, or second requests of its own or another client up to 12 s later; then the next session", covers=["supported", "refused", "ping", "request", "end"]),
    T("h_version_connected_t", "5 of them", replaces="h_version_connected"),
    E("h_sessions_idle", "a session idle for 0 to 59 s, a further request by its own or another client (ids equal in the low half too)", covers=["end"]),
    E("h_reconnect", "each way a session ends, reconnection 0..60 ms later, old handle dropped or kept", covers=["end", "timed out"]),
    E("h_crowd", "36 sessions of IPv4 and IPv6 addresses at once, any one of them used and ended in each way", covers=["end", "timed out", "dropped", "close", "disconnect"], max_steps=200_000_000),
    T("h_crowd_t", "150 sessions", replaces="h_crowd", max_steps=2_000_000_000),
    T("h_sessions_t", "6 events", replaces="h_sessions")]},
 "C34": {"feature": "net", "entries": [
    E("h_close_listener", "not listening, listening, or twice; 0..2 sessions open, dropped or never accepted; a request arriving; 4 arbitrary scheduling choices, both task orders", covers=["end", "request at close"]),
    E("h_drop_listener", "dropped with a session, 4 arbitrary scheduling choices, both task orders", covers=["end"]),
    E("h_dropped_early", "listener, accepted connection and connect() dropped before their tasks ran; 4 arbitrary scheduling choices", covers=["listener", "connection", "connect", "end"]),
    E("h_crowd", "closed with 36 sessions", covers=["end"], max_steps=200_000_000), T("h_crowd_t", "150 sessions", replaces="h_crowd", max_steps=2_000_000_000),
    E("h_close_unread", "closed with a connection that has 1 to 115 unread messages, beside another", covers=["end"]),
    E("h_backlog", "closed with 9 to 12 connections nobody accepted", covers=["close"])]},
 "C35": {"feature": "net", "entries": [
    E("h_construct_server", "both orders at every task creation of listener and two sessions", covers=["end"]),
    E("h_construct_client", "both orders at every task creation of connect()", covers=["end"])]},
 "C36": {"feature": "net", "entries": [
    E("h_backlog", "9 to 12 connections nobody accepts, beside one that works", covers=["accept", "close"]),
    E("h_slow_reader", "90 to 120 messages nobody reads, beside a connection that works", covers=["end"])]},
 "C37": {"feature": "net", "entries": [
    E("h_both", "connect, one message of each reliability and one split message, close, in either direction; each single one of the first 40 datagrams lost, repeated or delayed", covers=["lost", "repeated", "delayed", "end"]),
    E("h_both_spawn", "the same with each single task, or all, run first; 3 datagrams", covers=["end"]),
    E("h_both_close", "either end closed or dropped, with a message outstanding or not; the first 0, 1, 2 or 4 datagrams from then on lost", covers=["end", "outstanding", "dropped"]),
    T("h_both_t", "both: 40 datagrams, each task first")]},
 "C40": {"feature": "net", "entries": [
    E("h_send_fails", "either end; any of the next 12 sends fail", covers=["end", "failed"]),
    E("h_send_fails_close", "either end; any of 6 sends fail while the connection ends", covers=["end", "failed"]),
    E("h_send_fails_listener", "2 datagrams at a listener, any of the answers cannot be sent", covers=["end", "failed"]),
    E("h_send_fails_connect", "any of 4 sends of connect() fail, at each step", covers=["end", "failed"])]},
 "C41": {"feature": "net", "entries": [
    E("h_packed", "either end; 80 frames of all kinds in one datagram (five ids), any one of them with symbolic content, a ping, unknown or empty", covers=["end"]),
    T("h_packed_t", "160 frames", replaces="h_packed")]},
 "C42": {"feature": "net", "entries": [
    E("h_concurrent_send", "either end; 3 calls of send() at once, one of a split message; 4 arbitrary choices which call or which tasks go on next, the last may abandon a call", covers=["abandoned", "end"]),
    T("h_concurrent_send_t", "6 choices", replaces="h_concurrent_send"),
    E("h_concurrent_recv", "either end; 2 calls of recv(), 5 arbitrary events: a call polled or abandoned, a message arriving, tasks run", covers=["abandoned", "end"]),
    T("h_concurrent_recv_t", "7 events", replaces="h_concurrent_recv"),
    E("h_abandoned", "either end; recv, flush or either kind of send abandoned after 0..3 polls with tasks or ticks between them", covers=["send", "end"]),
    E("h_abandoned_behind", "either end; 1, 5, 9 or 14 unreliable messages waiting behind a reliable one when a later call of send() is abandoned", covers=["end"]),
    E("h_accept_abandoned", "accept() called twice and abandoned after 0..2 polls, a connection arriving or not between any two", covers=["abandoned", "end"]),
    T("h_accept_abandoned_t", "3 calls", replaces="h_accept_abandoned")]},
 "C43": {"feature": "net", "entries": [
    E("h_promptly", "either end; 4 datagrams, any of the first 3 missing, the first missing one late or not, a tick after any; all reliabilities of one", covers=["late", "missing", "end"]),
    E("h_promptly_idle", "either end; after 0, 5.1, 20 or 50 s without traffic", covers=["end"]),
    T("h_promptly_t", "5 datagrams", replaces="h_promptly"),
    E("h_promptly_many", "300 separate gaps within one tick, one of five filled late or never there", covers=["late", "end"], max_steps=200_000_000),
    T("h_promptly_many_t", "700 gaps", replaces="h_promptly_many", max_steps=2_000_000_000),
    E("h_applied", "either end; 4 messages outstanding; ACK or NACK of two arbitrary ranges of them", covers=["ack", "nack", "end"]),
    T("h_applied_t", "6 messages", replaces="h_applied"),
    E("h_applied_many", "44 messages outstanding, every other one but any one reported in a record of its own", covers=["ack", "nack", "end"]),
    T("h_applied_many_t", "150 messages", replaces="h_applied_many", max_steps=1_000_000_000),
    E("h_applied_wide", "1100 messages outstanding, one record names up to all of them", covers=["ack", "nack", "end"], max_steps=1_000_000_000),
    T("h_applied_wide_t", "3000 messages", replaces="h_applied_wide", max_steps=20_000_000_000)]},
 "C44": {"feature": "net", "entries": [
    E("h_simulated", "either end; never set, 10, or any stage 0..9; 6 arbitrary draws", covers=["lossless", "lost", "sent", "end"]),
    E("h_sock_burst", "a connection at either end; 125 messages of any kind in one datagram, or ordered ones released by a late one, before any is read", covers=["end", "late"], max_steps=100_000_000),
    E("h_lossless", "either end; 45 messages of all kinds and one of 16 fragments waiting behind one, released by a tick or a further send(); 45 datagrams arriving at once", covers=["send", "end"]),
    T("h_lossless_t", "120 of each", replaces="h_lossless", max_steps=1_000_000_000)]},
 "C45": {"feature": "net", "entries": [
    E("h_logging", "either end; 6 flag values; one history with malformed datagrams, loss, resending and each way to end, any frame kind", covers=["end"])]},
 "C46": {"feature": "net", "entries": [
    E("h_foreign", "either end; one datagram of six kinds or of 1, 4 or 12 arbitrary bytes from four other addresses, then a minute of others", covers=["end"]),
    T("h_foreign_t", "3 datagrams", replaces="h_foreign"),
    E("h_foreign_connect", "last two steps of connect(); six kinds of datagrams", covers=["end"])]},
 "C47": {"feature": "net", "entries": [
    E("h_connect6", "as h_connect_lossy, all addresses IPv6", covers=["end", "lost"]),
    E("h_ping6", "as h_ping, all addresses IPv6", covers=["lost", "pong"], clock=True),
    E("h_sessions6", "as h_sessions, 3 steps, all addresses IPv6", covers=["end"]),
    E("h_version6", "as h_version, all addresses IPv6", covers=["end"]),
    E("h_both6", "as h_both, all addresses IPv6", covers=["end"])]},
 "C48": {"feature": "net", "entries": [
    E("h_listener_calls", "bind() or from_std(), then any 5 of listen, accept, a peer's handshake, a ping, set_full_motd, set_motd, close, another bind of the address", covers=["accepted", "not listening", "pong", "closed", "bound again", "named", "end"]),
    E("h_socket_calls", "a connection at either end; any 5 of send, recv, flush, close, a message or a disconnect from the peer, acknowledgement of everything, 11 s", covers=["refused", "received", "waits", "received after the end", "end"]),
    T("h_listener_calls_t", "any 6 calls", replaces="h_listener_calls"),
    T("h_socket_calls_t", "any 7", replaces="h_socket_calls")]},
}
