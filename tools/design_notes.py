"""hand written part of DESIGN.md: oracle of each property, and what was corrected in the machinery"""
ORACLE = {
"C01": "A reference A-XDR encoder (`pbt/gens.py`), written from the Green Book and sharing no code with the package, gives the octets; the package must decode them to the value generated, re-encode to the same octets and return exactly the tail. Round trip plus differential.",
"C02": "Every strict prefix of a valid encoding, a foreign tag, a wrong member: the expected outcome is known by construction (exception). For noise the oracle is metamorphic: an accepted input must re-encode with the same tag, decode again to the same, and the rest must be the end of the input.",
"C03": "A five-line reference length codec; every codec of the package (A-XDR, HDLC sizes, positioned buffer) is compared with it, exhaustively to 1200.",
"C04": "Python integers with the limits of the type: accept iff in range, through every way of arrival. Enumerations: all 256 octets against the declared members, for every Enum subclass found in the package.",
"C05": "Model: the last accepted encoding. After every step of a history the value is compared with it; a rejected or vetoed step must leave the encoding of the whole tree as it was, callbacks are counted.",
"C06": "Model: a plain Python list of member encodings with the operation applied by `list`; uniqueness modelled as refusal. Structures: list of declared members.",
"C07": "The generator builds text and octets side by side from the parts, so that the parser is never its own oracle; wrong texts have one part pushed out of its range.",
"C08": "Independent calendar (datetime) decides validity of contents; conversions are compared with datetime arithmetic; histories of single-part setters keep the invariant.",
"C09": "Descending brute-force search over days and times of the pattern (bounded to the reach of the pattern) gives the latest match.",
"C10": "Python list of booleans; exhaustive for flag octets.",
"C11": "struct.pack('>f'/'>d') and its inverse.",
"C12": "Exact decimal arithmetic (fractions): physical = raw*10^scaler/multiple; nearest raw computed exactly.",
"C13": "bytes.fromhex / codecs cp1251 and utf-8 of the standard library.",
"C14": "ASN.1 object identifier encoder written in the check (base 128).",
"C15": "Six octets as a tuple; the pattern matcher is a predicate per group computed from the generated parts.",
"C16": "Table of alternatives per choice, written from the standard; membership by tag, length or selector.",
"C17": "A generator of types (nested sequences, optional/default members, choices) that builds value and contents side by side.",
"C18": "A bytearray model of the buffer with position; every octet outside the written range must be untouched.",
"C19": "`pbt/hdlcref.py`: independent HDLC address writer from IEC 62056-46 6.4.2.",
"C20": "`pbt/hdlcref.py`: independent frame writer with a bitwise CRC-16/X-25.",
"C21": "Damage is applied to the wire octets; anything returned must be a frame that the reference reader accepts on its own; bursts up to 16 bits must be detected (guarantee of the CRC).",
"C22": "The list of generated good frames is the expected sequence, whatever the chunks; joined information equals the octets before cutting.",
"C23": "Reference writer/reader of the parameter TLVs.",
"C24": "Integers modulo 8; exhaustive over control octets.",
"C25": "Triples of numbers; nearest variant by a direct scan.",
"C26": "tomllib over the same file; messages composed of parts whose translation is known; sub-process per working directory.",
"C27": "Encryption is written with the standard AES of the dependency and SHA-256 of hashlib; the container is composed by the check.",
"C28": "Tables of DLMS UA 1000-1 part 1 transcribed by hand as ranges; exhaustive over one-axis sweeps of value groups.",
"C29": "Table of rules transcribed by hand; every class x version is asked for names on the borders of every rule (exhaustive) and random ones.",
"C30": "A Python dict of logical names.",
"C31": "Sets computed from the generated object lists by the definition of access modes of both versions of the association.",
"C32": "Set-once model; the library of type descriptions is made by the check in a scratch directory, nearest version by scan.",
"C33": "Deep comparison of attribute encodings of the two collections; independence by mutating every kind of part in place on one side and comparing the other.",
"C34": "Predicates over the six octets; sorting by `sorted` with the key order of the letters; trees rebuilt from groups.",
"C35": "Declared type table of each class: the accepted encodings are generated from the declared type, refused ones from another; a history model keeps the last accepted encoding per attribute.",
"C36": "Brute-force evaluation of the calendar (all seasons, weeks, days, actions) for the moment.",
"C37": "Recalculated from the present attributes by definition after every step of a history: scaler, type of the monitored value, permissions per user.",
"C38": "Columns computed from the generated capture objects and the selection; encodings of the entries composed by the check.",
"C40": "The set of changed writable static attributes is computed from the object list and the encodings of a fresh collection of the same device; after restoring every attribute of every object is compared with it.",
"C39": "Comparison of the collection before saving and after loading restricted to what a description holds; written descriptions are composed by ElementTree in the check, not by the package.",
"C41": "The texts come from the tables of texts, looked up by code independently of the report code; the expected report of an object is composed line by line from names of attributes, members and their own texts.",
"C42": "Reference model: the list of slices of the image and the current number; every operation of a history is applied to both.",
"C43": "The information field is built from the chosen parameters by an encoder of the harness; the expected attributes are a map updated with them. A hidden text must consist of stars only.",
"C44": "The constructor of the type decides whether a text makes a value; the texts that only begin one are described by a rule for each kind of type (prefix of a name, missing digit, missing point, padded flags).",
"C45": "Tables of the classes transcribed by hand from the Blue Book and SPODES (pbt/bluebook.py); a small type language generates both the values of a type and the ones with exactly one error, without the declarations of the code.",
}
FALSE_ALARMS = """
* C01–C12, early: the clock status octet in text, ties of rounding, raw numbers above 2^49 (physical values pass through a double), special month/day codes in the search of C09, and 29 February without a year as a Python date were taken out of the domain; reserved tags and CompactArray (declared untested by its author; abstract) are outside.
* C06: elements of an alien type are offered to an untyped array only as an encoding.
* C16: a date without its last octet has the length of a time: not a wrong alternative. C17: OPTIONAL(Null) and a zero-octet last member cannot be told from absence.
* C22: noise that imitates a format field after a flag is excluded, no reader can tell it from a frame still arriving.
* C26: an own config.toml must hold all sections.
* C28: where two tables list one name, either group is accepted. C29: rules of logical names that are manufacturer specific are dead by definition; class versions without an implementation are judged by refusal only.
* C30: forms restricted to abstract names with C in 100..127, where every class suits. C31: associations without an object list are out of `get_writable_attr`; mechanism only NONE/LOW/HIGH.
* C33: in-place change of the value object given as server type is the caller's matter. C34: the last letter of the tree mode is the outer level; reserved media keys are ignored. C35: order of initiation of a profile is free; object identifiers only with possible arcs.
* C36: of two seasons or actions started at the same moment any may be the current one.
* C37: the monitored value is set once; scalers of thresholds are judged for classes 3 and 4 only. C38: a missing object of unknown version is reported by either of two errors; no null-data abbreviation of buffer entries.
* C40: reserved members of an enumeration share a text and control characters do not exist in XML: such values are not put in a template; the clock status is not part of the text of a date-time; types chosen by octets (choices within structures) have no text of their own; a description whose contents name another device than its place in the library is left out.
* C39: order of objects in the file, the current association and the device name are not judged; an association readable in its own object list is needed for the list to be saved.
* C27: a "wrong" key padded with zeros could equal the right one (harness error; excluded).
* All: Hypothesis makes many cases by mutating the previous one; `core.py` keeps that for every fifth case only, otherwise cases are independent draws.
"""
