NAMES = ["nm", "th", "value::bus", "value::bus::well_known_bus_name", "value::bus::unique_connection_name", "value::interface", "value::error", "value::member", "value::object_path"]
TYPES = ["ty", "th", "value::type_enum", "value::type_enum::lem"]
DEC = ["vl", "decode::decoder", "decode::value::basic_type", "decode::value::container", "decode::value::value_enum", "decode::message::header", "decode::message::message_struct",
       "value::value_enum", "value::value_enum::lem_v", "value::container", "message::message_struct"]
ENC = ["mw", "encode::encoder", "encode::value::basic_type", "encode::value::value_enum", "encode::value::container", "encode::message::header", "encode::message::message_struct"]
HEAD = ["ms", "message::types", "message::header::fields", "message::header::header_struct"]
STD = "the bytes crate, std string functions and derived Clone/PartialEq/Default are assumed by contract (listed in trusted_base)"
def u(*ls):
    out = []
    for l in ls:
        for m in l:
            if m not in out:
                out.append(m)
    return out
PROPS = {
    "C01": dict(modules=u(DEC, HEAD, NAMES, TYPES), secs=15, note="no panic, no overflow, no out-of-range access and termination of every decoding function and of every name, path and signature parser, as obligations of the function contracts; stack and heap exhaustion are outside the logic; " + STD),
    "C02": dict(modules=u(["rt"], ENC, DEC, HEAD, TYPES, ["lm", "pf"]), secs=15, note="encoder proved equal to the marshalling of contracts/10_marsh.rs, decoder to the reader of 06_values.rs and 07_msg.rs, and lemma rt::msg_back proves that the reader gives back every marshalled message; " + STD),
    "C03": dict(modules=u(ENC, HEAD, TYPES, ["value::value_enum", "value::value_enum::lem_v", "value::container", "rt"]), secs=15, note="every encoding function proved equal to the marshalling written down in contracts/10_marsh.rs (padding, lengths, byte order, body length, signature), end to end for Message::encode and encode_with_fds; " + STD),
    "C04": dict(modules=u(DEC, HEAD, ["sd", "rt", "mw", "fd", "lm", "pf"]), secs=15, note="every decoding function equals the reader of contracts/06_values.rs and 07_msg.rs (Message::decode, decode_with_fds end to end); lemma sd::accepts_iff proves that this reader accepts exactly the buffers that start with the marshalling (10_marsh.rs) of a legal message and gives that message; " + STD),
    "C05": dict(modules=NAMES, secs=15, note="every recogniser, state machine step and constructor under contract; " + STD),
    "C06": dict(modules=TYPES, secs=15, note="parser, printer, depth and length checks, constructors alignment and Display under contract, with the lemma that printing and parsing are inverse; " + STD),
    "C07": dict(modules=["nm","th","value::object_path"], secs=15, note="validity, append, starts_with, strip_prefix_elements under contract; " + STD),
    "C08": dict(modules=u(HEAD, ["vl", "pf", "lm", "rp", "decode::message::header", "decode::message::message_struct", "message::message_struct"]), secs=15, note="field dispatch, duplicates, required fields and header construction under contract, lifted to whole decoded messages by lemma lm::msg_ok; " + STD),
    "C09": dict(modules=u(["rp", "ms", "th", "nm"], HEAD, ["message::message_struct", "value::error", "value::interface", "value::member"]), secs=15, note="every reply constructor and accessor proved equal to the reply of contracts/13_reply.rs; " + STD),
    "C10": dict(modules=u(["fd", "rt", "sd", "lm", "pf"], ENC, DEC, HEAD), secs=15, note="the encoder's descriptor list and indices and the decoder's lookup and count are part of the function contracts; lemmas fd::msg_fds (encoding) and sd::accepts_iff (decoding: lookup and highest index) lift them to whole messages; " + STD),
    "C11": dict(modules=u(["pf"], DEC, HEAD), secs=15, note="decoding equals the reader; lemmas pf::tail_free and pf::cut_short over that reader give independence of trailing bytes and rejection of every cut; " + STD),
    "C12": dict(modules=u(TYPES, ["vl", "value::value_enum", "value::value_enum::lem_v", "value::container", "lm", "mw", "encode::value::container", "encode::message::message_struct", "decode::value::container", "decode::value::value_enum", "decode::message::message_struct", "message::message_struct", "message::header::header_struct"]), secs=15, note="container constructors, get_type, to_signature, get_signature and the decoder's containers under contract; " + STD),
    "C13": dict(modules=u(["lm", "pf", "sd", "rt", "mw", "fd"], DEC, HEAD, TYPES), secs=15, note="the limits are part of the reader every decoding function is proved equal to; lemma lm::msg_ok states them for whole messages, and sd::accepts_all that every legal message within them is accepted; " + STD),
    "C14": dict(modules=u(["mr", "mp", "match_rule", "match_rule::arg", "match_rule::arg_path", "match_rule::escape", "match_rule::unescape", "match_rule::split", "match_rule::decode", "match_rule::encode", "message::types"], NAMES), secs=15, note="printing, escaping, splitting, unescaping and parsing of rules under contract; lemma mp::round_trip proves that the printed text of every list of rules reads back as that list; " + STD),
    "C15": dict(modules=u(["mr", "match_rule", "match_rule::matching", "match_rule::arg", "match_rule::arg_path", "message::message_struct"], HEAD, NAMES), secs=15, note="matching_rule, matching_rules and the helpers proved equal to the selection of contracts/14_match.rs; lemmas pieces_below and paths_below relate it to whole elements; " + STD),
    "C16": dict(modules=u(["mr", "match_rule", "match_rule::arg", "match_rule::arg_path", "match_rule::unescape", "match_rule::split", "match_rule::decode", "message::types"], NAMES), secs=15, note="splitting, unescaping and parsing proved equal to the grammar rules_of of contracts/14_match.rs; " + STD),
}
NOT_APPLICABLE = {}
