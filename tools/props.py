"""source of properties.jsonl (run: python3 tools/props.py && python3 tools/make_manifest.py)"""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["src/DLMS_SPODES/" + f for f in files], "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe or [], "hook_needed": None}})


CDT = "types/common_data_types.py"
UT = "types/useful_types.py"
PDU = "types/cosem_pdu.py"

p("C01", "A-XDR value encoding and decoding are inverse and consume exactly the value",
  "Every value of a supported common data type, including arrays and structures of any nesting, is encoded as its tag, the length where the type has one, and its contents; decoding that encoding gives back an equal value of the same type whose own encoding is the same octets. "
  "When more octets follow the value, decoding takes exactly the octets of the value and hands back all the rest untouched. "
  "A value built from a Python value, from its contents or from its encoding is the same value.",
  ["inputs"], "all values of all simple common data types, arrays/structures of them up to the generated depth and size, any octets behind",
  "The tests decode a dozen literal encodings; nesting, length boundaries (127/128, 255/256, 65535/65536) and trailing octets form an unbounded space.",
  [CDT], [("per-type constructors and encoding", CDT), ("get_instance_and_pdu*", CDT), ("__get_data_types registry by tag", CDT)],
  ["encoding", "decode()", "get_instance_and_pdu_from_value"])
p("C02", "Malformed encodings are rejected, never turned into another value",
  "An encoding cut short anywhere, an encoding under the tag of another type, and a structure or array whose members contradict the declared member types or number are rejected with an exception. "
  "Octets that are accepted decode to a value whose own encoding starts with the same tag and decodes again to the same value, and the reported rest is the end of the input.",
  ["inputs"], "all strict prefixes of generated encodings, all tag substitutions in generated declared types, random and mutated octets",
  "Existing tests contain a few hand-written wrong inputs; the property ranges over every cut position and member of every type.",
  [CDT, "types/cosem_service_types.py"], [("length checks in constructors", CDT), ("tag match in constructors", CDT)], ["constructors raise"])
p("C03", "Length octets: shortest form, exact inverse, incomplete ones rejected",
  "Every non-negative length is encoded the same way by all codecs of the package: one octet below 128, otherwise a count octet (1, 2, 4 or, above four octets, the exact number) and the big-endian value. "
  "Reading the octets back gives the same length and leaves the rest, for any number of length octets, also through the positioned buffer, whose position moves exactly behind the length. "
  "Fewer octets than announced are rejected.",
  ["inputs"], "all lengths 0..2^64, all positions in a buffer, 1..9 length octets, every strict prefix",
  "Tests use short values, so only the one-octet form is ever executed.", [CDT, UT, PDU],
  [("encode_length / get_length_and_pdu", CDT), ("encode_length / get_length_and_pdu", UT), ("Buffer.put_len / get_length / decide_len", PDU)], ["encode_length", "get_length_and_pdu", "Buffer"])
p("C04", "Numbers, enumerations and booleans accept exactly their legal values",
  "An integer type accepts exactly the numbers of its width and sign, and a type with a declared minimum, maximum or constant value accepts exactly the numbers within it, whichever way the number arrives (int, text, contents, encoding); anything else is rejected and leaves the old value in place; the default is 0, or the minimum when that is above 0; a shift moves the bits within the width of the number. "
  "An enumeration accepts exactly its declared members. "
  "Values keep their order under comparison with values and plain integers.",
  ["inputs"], "all integer types of the three type families, generated limits, every declared enumeration against every octet",
  "Limits are checked by the tests for one or two types and values.", [CDT, UT, PDU, "types/implementations/enums.py"],
  [("Digital.validate / MIN / MAX / VALUE", CDT), ("Enum.ELEMENTS", CDT), ("INTEGER", UT), ("INTEGER", PDU)], ["constructors", "set", "int()"])
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_more.py"), encoding="utf-8").read()) if os.path.exists(
    os.path.join(os.path.dirname(os.path.abspath(__file__)), "props_more.py")) else None
if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w", encoding="utf-8") as f:
        for it in P:
            f.write(json.dumps(it, ensure_ascii=False) + "\n")
    print(len(P), "properties")
