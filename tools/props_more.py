BITS = "types/implementations/bitstrings.py"
CFG = "config_parser.py"
p("C05", "A value holds the last accepted data; a rejected or vetoed set changes nothing",
  "After any history of set, decode, clear and copy a value equals the last data it accepted, its encoding shows it, and get_copy/copy give independent values of the same type. "
  "A set that is rejected, by the type or by the callback registered before setting, leaves the old value and everything inside it; the callback registered after setting runs exactly when the value was taken.",
  ["histories"], "all interleavings of set (python value, encoding, instance, contents), rejected set, veto, clear, copy on all simple types and generated containers",
  "Tests set a value once; sharing between copies and partial change after an error show only in longer histories.",
  [CDT], [("set / _new_instance / validate", CDT), ("copy / get_copy", CDT), ("register_cb_preset / register_cb_post_set", CDT)], ["encoding after each step"])
p("C06", "Arrays and structures behave as lists of members of their declared types",
  "Any sequence of append, insert, remove, pop, clear, item assignment, sort, set and copy on an array gives the list of members a plain list would have; every member has the element type of the array, and an array declared unique never holds two equal members. "
  "A structure always has exactly its declared members of their declared types; members are reachable by index, name and iteration alike.",
  ["histories"], "operation sequences on arrays of few distinct elements and on declared structures of 1..10 members, whole sets of other length and types",
  "The tests do single operations; uniqueness and member types have to survive arbitrary sequences, including rejected operations.",
  [CDT, "types/implementations/structs.py", "types/implementations/arrays.py"], [("Array", CDT), ("Structure", CDT)], ["encoding", "iteration", "len"])
p("C07", "Dates and times: text and octets are the same value in both directions",
  "The text of a valid date, time or date-time, with or without unspecified parts, gives back the same octets when parsed, and every documented text form (parts omitted, weekday words, deviation) gives the octets its parts say. "
  "A text with a part out of its range, or that is no date, is rejected and never becomes another moment. A fully specified moment is written as dd.mm.yyyy and hh:mm:ss(.ff), a deviation in minutes after it.",
  ["inputs"], "all valid dates/times/date-times incl. unspecified parts and special codes, all documented text forms, mutated texts",
  "Tests parse a dozen literal strings.", [CDT], [("Date/Time/DateTime.from_str, to_str, __str__", CDT)], ["str()", "constructor from text"])
p("C08", "Dates and times hold only possible moments and convert faithfully to Python",
  "Contents are accepted exactly when every part is in its range or unspecified and day, month, year and weekday fit together; setting single parts keeps this invariant or is rejected without change. "
  "A fully specified value converts to the Python date, time or aware datetime of the same instant and back.",
  ["inputs", "histories"], "valid octets with up to two replaced, datetimes of years 1..9999 with offsets, histories of part setters",
  "The combinations of parts (leap days, month lengths, weekday) cannot be sampled by hand.", [CDT, "types/cosem_service_types.py"],
  [("validation in Date/Time/DateTime", CDT), ("from_datetime/from_date/decode/to_datetime", CDT), ("set_* of parts", CDT)], ["constructors", "decode()"])
p("C09", "The nearest earlier moment of a date/time pattern is the true one",
  "For a date-time with unspecified parts and a point in time, the nearest left moment is the latest moment not after the point which the pattern matches, or none if there is none.",
  ["inputs"], "patterns with any subset of parts unspecified, points around them, leap years, ends of months",
  "The search goes over calendars of many years; tests have a few examples.", [CDT], [("get_left_nearest_date / get_left_nearest_datetime / time", CDT)], ["return value"])
p("C10", "Bit strings and flag octets: every bit is where its index says",
  "Setting, inverting, rotating and replacing bits of a bit string changes exactly those bits of its value and encoding, whatever its length; each named flag of a flag set reads and writes its own bit only; integer and text forms denote the same bits; bit strings are equal when they have the same bits and the same length; a flag without a name is refused.",
  ["inputs", "histories"], "bit strings of any length, histories of bit operations, all 256 values of flag octets, all bits of Conformance",
  "Tests toggle bits within one octet.", [CDT, UT, PDU, BITS], [("BitString", CDT), ("Conformance", BITS), ("FlagMixin", CDT), ("BITSTRING", UT)], ["encoding", "index access", "str()"])
p("C11", "Floating point values are IEEE 754, single and double",
  "A float value holds exactly the IEEE number nearest to what was given, for all classes of numbers, encodes to its big-endian octets, and its text parses to the same number; numbers beyond the range are rejected.",
  ["inputs"], "all classes of doubles and singles as numbers, texts and octets", "The space of floats is sampled at two points by the tests.", [CDT],
  [("Float / Float32 / Float64", CDT)], ["decode()", "encoding", "str()"])
p("C12", "Physical values: number, scaler and unit agree in every representation",
  "A number with scaler and unit shows the physical value raw*10^scaler (in the configured unit multiple) in decode, text and report, and takes physical values back to the raw number that represents them, rounding to the nearest; the raw encoding never depends on the scaler. "
  "A value that does not fit the raw type after scaling is rejected.",
  ["inputs"], "all integer types, raw numbers below 2^49, scalers -9..9, all units", "Float rounding and scaler combination is number dependent; tests check a couple.",
  [CDT, "cosem_interface_classes/register.py", CFG], [("Digital scaling", CDT), ("ScalUnitType", CDT), ("Register.set_attr binding of scaler_unit", "cosem_interface_classes/register.py")],
  ["decode", "str", "report", "contents"])
FRAME = "hdlc/frame.py"
SUB = "hdlc/sub_layer.py"
NEG = "hdlc/negotiation.py"
CH = "types/choices.py"
CST = "types/cosem_service_types.py"
p("C13", "Octet, visible and UTF-8 strings keep their octets and characters",
  "An octet string holds exactly the octets given as hexadecimal text (with any spacing), bytes or contents, and shows them back as text that gives the same octets; a visible string holds cp1251 text and a UTF-8 string any text, each giving the same text back. "
  "Text that is no hexadecimal number, or characters outside the charset, are rejected.",
  ["inputs"], "octets of any length and value, texts of all characters of the charset and beyond, spacing styles, odd and non-hex texts",
  "Tests use ASCII only.", [CDT, UT], [("OctetString / VisibleString / Utf8String", CDT), ("OCTET_STRING", UT)], ["contents", "str()", "decode()"])
p("C14", "Object identifiers of context and mechanism names are coded as ASN.1 says",
  "The application context name and the authentication mechanism name give the ASN.1 object identifier encoding (first two arcs in one number, base 128 with continuation bits) of their arcs, and decode that encoding, tagged or not, to the same arcs. "
  "An incomplete or oversized identifier is rejected.",
  ["inputs"], "arcs of every size, encodings cut or extended at any octet", "Tests do not touch arcs that need more than one octet.",
  ["cosem_interface_classes/association_ln/ver0.py", "cosem_interface_classes/association_ln/ver1.py"],
  [("ContextNameType / MechanismNameType", "cosem_interface_classes/association_ln/ver0.py"), ("AuthenticationMechanismName", "cosem_interface_classes/association_ln/authentication_mechanism_name.py")], ["contents", "members"])
p("C15", "Logical names: six octets, one text form, patterns match what they say",
  "A logical name given as dotted text, bytes or contents has the same six octets and shows them in dotted text that gives them back; anything but six octets 0..255 is rejected. "
  "A name pattern with literal parts, ranges, sets and wildcards matches exactly the names whose every group matches. An IPv4 address text and its number are the same value.",
  ["inputs"], "all six-octet names, all pattern forms for each group, texts with one part wrong", "The product of group patterns and names is unbounded for tests.",
  [CST, "cosem_interface_classes/collection.py", "types/implementations/double_long_usingneds.py", "obis/abstract_objects.py"],
  [("LogicalName", CST), ("LNPattern / LNPatterns", "cosem_interface_classes/collection.py"), ("IPAddress", "types/implementations/double_long_usingneds.py")], ["contents", "str()", "in pattern"])
p("C16", "A choice takes exactly its alternatives, by tag, length or selector",
  "A value whose type is chosen at run time (CHOICE attributes, date/time by length, selective-access data by selector) takes exactly the alternatives it declares, becomes the type the tag, length or selector names, with equal contents, and rejects every other one.",
  ["inputs"], "all choice types of the package, all tags 0..255, all lengths, all selectors with valid data of each", "Tests touch one alternative of two choices.",
  [CH, CDT, CST, UT], [("CommonDataTypeChoiceBase / SimpleDataTypeChoice ...", CH), ("SelectiveAccessDescriptor", CST), ("CHOICE", UT)], ["type and encoding of the result"])
p("C17", "Service layer types: contents, value and remaining octets agree",
  "Every service layer type (integers, octet and bit strings, choices, optional and default members, sequences, sequences-of, invoke identifiers, descriptors) has contents that decode to the equal value taking exactly its own octets; incomplete contents and illegal values are rejected.",
  ["inputs"], "generated sequences of all member types to depth 3, all cuts, all octets behind", "Tests build a few fixed descriptors.",
  [UT, "types/cosemAttributeDescriptor.py", "types/cosemClassID.py", CST], [("from_contents / contents of all types", UT)], ["contents", "rest"])
p("C18", "Positioned buffer types write and read the same value at the same place",
  "A value of the buffer based service types written to a buffer takes exactly its octets at the position, moves the position behind them, leaves all other octets, and is read back equal from the same position; a read never goes past the end of the buffer and a write that does not fit is rejected.",
  ["inputs", "histories"], "all types of the module and nested data, all positions, buffers too small by any number of octets", "Tests write small values at position 0.",
  [PDU, "types/byte_buffer.py"], [("put / get of all types", PDU), ("Buffer", PDU), ("ByteBuffer", "types/byte_buffer.py")], ["buffer octets", "position"])
p("C19", "HDLC addresses: values, octets and length forms are one mapping",
  "Two addresses are equal exactly when their octets are. An HDLC address is built for exactly the upper and lower parts the chosen length (1, 2 or 4 octets, or the shortest when automatic) can hold, gives the octets IEC 62056-46 prescribes, and is read back from them, alone or inside a frame, with the number of octets it took. Other values are rejected.",
  ["inputs"], "all pairs 0..0x3fff, all lengths, all octet strings 1..5", "Tests have one address.", [FRAME], [("Address", FRAME)], ["content", "upper/lower", "len"])
p("C20", "HDLC frames are built as the standard prescribes and parsed to the same parts",
  "A frame built from addresses, control, information and segmentation flag has the octets of IEC 62056-46 (format with length, addresses, control, check sequences, flags), and those octets are parsed back to the same parts. "
  "Every control octet has the meaning the standard gives it; a frame longer than the length field allows is rejected.",
  ["inputs"], "all control octets, all address forms, information 0..2040 octets, segmented or not", "Tests parse two recorded frames.",
  [FRAME], [("Frame", FRAME), ("Control", FRAME), ("CRC", FRAME), ("Format", FRAME)], ["content", "parsed members"])

p("C21", "A damaged HDLC frame is never taken for a good one",
  "When octets of a frame on the wire are changed, dropped, inserted or swapped, nothing is returned as a received frame unless it is a frame whose check sequences are right; a change of one to four bits or one burst up to 16 bits inside a frame is always detected, "
  "and a wrong header or frame check sequence, format type or length is always rejected.",
  ["inputs"], "frames of all kinds with 1..2 generated damages, every single bit of a frame, information after it", "Tests parse intact recordings.",
  [FRAME], [("Frame.try_from", FRAME), ("CRC", FRAME)], ["returned frame", "its members"])
p("C22", "Every good frame of an octet stream is found once, and segments join",
  "However a stream is cut into pieces and whatever noise or damaged frames stand between, each good frame is taken from the buffer once, whole, in order, and leaves the octets behind it; "
  "information of segmented frames joins to the octets that were cut into them, and nothing is joined while the last segment is missing.",
  ["inputs", "schedules"], "streams of 1..7 frames, noise and damaged frames, all ways of cutting into pieces, information cut into any segments", "Tests feed one whole frame.",
  [FRAME], [("Frame.try_from", FRAME), ("Frame.join_info", FRAME)], ["frames taken", "octets left"])
p("C23", "HDLC negotiation and LLC header follow IEC 62056-46",
  "SNRM information contains exactly the parameters that differ from the defaults as the standard codes them (or nothing); a UA sets exactly the parameters it has, within what was offered, the rest get defaults, and a malformed one is rejected leaving the state. "
  "The LLC header is recognized and removed exactly when present.",
  ["inputs", "histories"], "all sizes 32..2030, windows 1..7, series of parameter changes, UA octets well formed, cut, with unknown tags", "Tests use default parameters.",
  [NEG, SUB], [("Negotiation", NEG), ("LLC", SUB)], ["SNRM octets", "parameters after UA", "message of LLC"])
p("C24", "HDLC sequence numbers count modulo 8 and select what follows what",
  "The next send and receive numbers are one further modulo 8 with everything else kept; after any history of sent and acknowledged frames the numbers equal the counts modulo 8; an information frame is the next one (segment, or answer with acknowledge) exactly when its numbers say so, and a frame is for a station exactly when its addresses are the exchanged ones.",
  ["inputs", "histories"], "all control octets, histories of 30 moves, all address forms", "Wrap-around needs more than 8 frames.",
  [FRAME], [("Control.next_send_sequence / next_receiver_sequence", FRAME), ("Frame.is_for_me", FRAME)], ["control octet", "return value"])
p("C25", "Application versions are totally ordered and the nearest one is chosen right",
  "Versions compare as their numbers, a version without patch before all patches of its branch, comparison operators agree with each other and with equality; text and version convert to each other and a text that is no version gives version 0.0; "
  "the variant selected as the nearest is one of the same branch, the latest not after the given one, or none if there is no such.",
  ["inputs"], "triples of numbers with and without patch, suffixes, arbitrary text, sets of variants", "Order axioms concern all pairs and triples.",
  ["version.py"], [("AppVersion", "version.py")], ["comparison", "str()", "selected version"])
p("C26", "Configuration values and messages are taken from the file that applies",
  "A configuration value is found by its path exactly when the file has it; a message is its text with every key between '$' replaced by the configured translation, or left as it is where none exists; "
  "the config.toml of the working directory is used, or the one of the package when there is none.",
  ["inputs"], "all paths of the configuration and near misses, messages made of any parts, own and default files", "Tests never look at messages.",
  [CFG], [("get_values / get_message / config file search", CFG)], ["value", "message"])
p("C27", "Encrypted firmware images decrypt to what was encrypted, and only whole",
  "Decryption with the same key gives exactly the encrypted octets for every length and key size; an image with any changed bit, cut, lost or exchanged blocks, or another key is rejected rather than returned wrong, and the container file of a manufacturer gives all its images decrypted under their own names, or is rejected as a whole.",
  ["inputs"], "data 0..1000 octets, keys of 16, 24, 32 octets, damaged images, containers with many versions", "There is no test of this part.",
  ["firmwares.py"], [("encrypt / decrypt / container access", "firmwares.py")], ["returned octets"])
p("C28", "Logical names have the medium, relation group and name of the OBIS tables",
  "For every logical name the medium is the one of its value group A, the relation group is the one whose ranges of value groups B..F in the OBIS tables (Blue Book part 1) contain it, or the medium itself where there is none, "
  "and the name of an object is defined (or reported unknown) for every logical name and built of the names of its value groups; the logical names the table lists singly have exactly the name given there, with channel and instance.",
  ["inputs"], "every cell border of the tables, all C and D of every medium, random logical names, the names of the value files", "The tables have thousands of borders, tests look at single logical names.",
  ["relation_to_OBIS.py", "obis/media_id.py"], [("get_media / get_relation_group", COL := "cosem_interface_classes/collection.py"), ("get_name", "relation_to_OBIS.py")], ["medium", "class of the group", "name"])
p("C29", "Class, version and logical name select the interface class",
  "An object is made of exactly the interface class that the tables of the collection's specification (country, manufacturer and version select it) give for its class identifier, version and logical name: by the most specific rule of its value groups, by the common class map where no rule applies; "
  "a class or version not allowed for the logical name is rejected and leaves the collection as it was.",
  ["inputs"], "every border of every rule of four specifications, all C and D of abstract and electricity media, all class and version pairs, random identifications", "The tables have hundreds of rules that take precedence over each other, tests look at single names.",
  [COL], [("get_type / ClassMap tables", COL), ("Collection.add / set_spec", COL)], ["class of the made object", "rejection"])
ASS = "cosem_interface_classes/association_ln/ver0.py"
p("C30", "A collection is a map of logical names to objects in every history",
  "After any history of adding, replacing, removing and looking up objects the collection holds exactly the objects a plain map of logical names would; an object is found by every form that names it "
  "(octets, text, logical name, descriptors, structures), and by its named getter exactly when the class of the object suits; iteration and length agree with the map, and a rejected operation leaves it.",
  ["histories"], "histories of up to 25 operations over a pool of names and classes, all forms of a name, all named getters", "Tests add one object and read it back.",
  [COL], [("Collection.add / get_object / add_if_missing / iteration", COL)], ["objects of the collection", "rejection"])
p("C31", "Access rights are exactly those of the object list of the association",
  "An attribute is readable, writable, a method accessible exactly when the first record of the object in the object list of the association gives the right for the authentication mechanism used; the sets of readable and writable attributes, "
  "the associations that can access, and the selection of the association by mechanism and client address all follow from the object lists; an object or index that is not in the list is reported, never guessed. When the list is read again, the rights are those of the new list and its objects are in the collection.",
  ["inputs"], "object lists of 1..8 elements with any access modes, selections, missing and repeated records, versions 0 and 1, several associations", "Tests never look at access rights.",
  [ASS, COL, "cosem_interface_classes/association_ln/ver1.py"], [("is_readable / is_writable / is_accessible", ASS), ("Collection.get_writable_attr", COL)], ["return value", "rejection"])
p("C32", "Identification of a device is set once and selects its type description",
  "Country, manufacturer, server type and version of a collection are accepted once; the same value again is accepted, a different one is rejected and changes nothing; collections are equal as their identifications are. "
  "The type description taken from the library is the one of the manufacturer, type and version, or the nearest earlier version of its branch, and a device that is not in the library is reported as such. A firmware newer than the description is reported at every reading, and the manufacturer is the head of the logical device name.",
  ["inputs", "histories"], "histories of up to 15 settings, all pairs of identifications, generated libraries and the one delivered", "Tests set each value once.",
  [COL], [("Collection.set_country / set_manufacturer / set_server_type / set_server_ver", COL), ("get_collection / get_dir_entry", COL)], ["identification", "rejection", "selected file"])
ICM = "cosem_interface_classes/cosem_interface_class.py"
p("C33", "A copy of a collection has the same configuration and shares nothing with it",
  "A copy of a collection has the same identification and the same objects of the same classes, and for the objects of its longest association (all, if no association has an object list) the same static values with the same scalers and units, in whatever order the objects come and however many depend on one another; a copy that cannot be made (an object that another one needs was removed) is an error, not an endless wait; the original is unchanged, "
  "and a later change of one of the two, or of a collection taken from the library, is never seen in the other. Copying values between collections gives the same values and reports whether all objects were found.",
  ["inputs", "histories"], "collections of 1..6 generated objects of any class with generated values and up to three associations, all collections of the library, changes in place afterwards",
  "Tests never change one of two copies.",
  [COL, ICM], [("Collection.copy / copy_objects_attr_values_from / get_collection", COL), ("COSEMInterfaceClasses.copy", ICM), ("AssociationLN.object_list", ASS)], ["encodings of attributes of both"])
p("C34", "Filters, orders and trees show exactly the objects that fit",
  "A pattern of logical names fits exactly the names whose groups are the given values, within the given sets and ranges, or skipped; a malformed pattern is rejected. The filter keeps, in order, the objects that fit some key of every kind given (class, medium, relation group, pattern). "
  "Sorting is stable with the first letter of the mode the most significant, the tree of objects groups each object once under its own class, medium and relation group with the last letter of the mode as the outer level, "
  "and the tree of attributes shows exactly the readable and writable ones asked for, without empty groups.",
  ["inputs"], "random objects of all classes and media, patterns with names at their borders, broken patterns, all modes, object lists with any access modes", "Tests print the views without looking at them.",
  [COL], [("LNPattern / get_filtered / get_sorted / get_object_tree", COL), ("Collection.get_attr_tree", COL)], ["returned objects and groups"])
p("C35", "Every attribute of every class takes exactly the data of its declared type",
  "For every interface class: an attribute takes exactly the encodings of its declared type and then gives them back with that type; rejected data - also data refused by the rule of a class - leaves the attribute and all others; clearing one attribute leaves the others, and time of record is kept per attribute. "
  "Value and scaler of a register give the physical value in whatever order they come, attribute and method descriptors carry class, name and index, and defaults and access rights are those of the tables.",
  ["histories"], "histories of up to 15 set, encode and clear operations on every interface class and version with data generated from the declared types, partly broken", "Tests set a few attributes of a few classes.",
  [ICM, "cosem_interface_classes/register.py"], [("set_attr / clear_attr / get_attr_descriptor / get_meth_descriptor", ICM), ("Register", "cosem_interface_classes/register.py")], ["encoding and type of attributes", "rejection", "descriptors"])
p("C36", "The activity calendar gives the season, week, day and rate of the moment",
  "The current season is the one that started last, the current week and day follow from its name and the weekday, a special day (with unspecified parts) overrides them, the present moment is the last read time of the clock in its time zone plus the time passed since it was read, and the current action and rate is the last one started on that day; what is not defined is reported. "
  "Names and identifiers in the tables stay unique and new elements take the lowest free one and refer to existing elements of the same (active or passive) calendar; validation names the table of the first repeated name or dangling reference.",
  ["inputs", "histories"], "generated calendars with patterns near the moment, special days with all kinds of unspecified parts, histories of operations on the six tables", "Tests look at one calendar at one moment.",
  ["cosem_interface_classes/activity_calendar.py", "cosem_interface_classes/special_days_table.py", "cosem_interface_classes/clock.py"],
  [("ActivityCalendar.get_current_* / validate", "cosem_interface_classes/activity_calendar.py"), ("SpecialDaysTable", "cosem_interface_classes/special_days_table.py")], ["returned elements", "tables", "rejection"])
p("C37", "Values that depend on another object follow it: scalers, thresholds, permissions",
  "Numbers of a register, extended or demand register carry the scaler and unit of their object in whatever order they are set and cleared, and the two values of a demand register have one type. Thresholds of a register monitor and a limiter take exactly the type (and scaler) of the monitored value; "
  "before it is known, or when it is absent or empty, the limiter reports that and keeps no threshold; when another value becomes the monitored one, thresholds of the same type are kept, others begin anew. Permissions of an arbitrator have as many bits as there are actions, entries of another length are reset and the others kept, and an action is named by what its script does.",
  ["histories"], "histories of set and clear operations on the three registers, monitored values of every simple type with thresholds set before and after, histories of actions and permissions", "Tests do not use the dependent classes.",
  ["cosem_interface_classes/register.py", "cosem_interface_classes/demand_register/ver0.py", "cosem_interface_classes/register_monitor.py", "cosem_interface_classes/limiter.py", "cosem_interface_classes/arbitrator.py", COL],
  [("DemandRegister", "cosem_interface_classes/demand_register/ver0.py"), ("RegisterMonitor", "cosem_interface_classes/register_monitor.py"), ("Limiter", "cosem_interface_classes/limiter.py"), ("Arbitrator", "cosem_interface_classes/arbitrator.py"), ("Collection.get_script_names", COL)],
  ["encoding, type and scaler of attributes", "rejection", "names"])
PG = "cosem_interface_classes/profile_generic/ver1.py"
p("C38", "The buffer of a profile has the columns of its capture objects and selection",
  "The entries of a profile buffer have exactly the columns of the capture objects that the selective access chooses, in that order, each with the type, name, object and scaler of the captured attribute or element; an entry that does not fit is rejected and the buffer left as it was. "
  "The read request carries the selection, a range of the type of the present sort object. Without sort object or capture objects the buffer is reported as not ready, a captured object that is missing is added to the collection or reported. A display readout has one flag for each of its capture objects.",
  ["inputs", "histories"], "profiles over 1..6 generated objects of any class with 1..6 columns, selections by range and by entry, 0..3 entries, wrong entries, all orders of initiation, scaler profiles", "The tests read one fixed profile.",
  [PG, COL, "types/implementations/arrays.py", "cosem_interface_classes/implementations/profile_generic.py"],
  [("ProfileGeneric", PG), ("Collection.get_name_and_type / add_if_missing", COL)], ["encodings, types and names of the buffer", "descriptors", "rejection"])
p("C39", "A description of a device type is loaded and saved without loss",
  "Saving a collection as a description of a device type and loading it gives the same identification, the same objects with their classes and versions, the object lists, the constant values that clients can read and the types of all attributes with a choice of type, in whatever order objects depend on one another; saving changes nothing in the collection and a loaded description is saved as the same one. "
  "A description of any supported format version gives exactly the objects, values, types and times of record that are written in it; descriptions of the library keep all that after loading and saving.",
  ["inputs"], "collections of 1..6 objects with 1..3 associations of any version and access modes, generated descriptions of formats 3.0 to 4.0, the library of descriptions", "The tests load some files of the library and compare little.",
  [COL, "cosem_interface_classes/cosem_interface_class.py"],
  [("Collection.save_type", COL), ("Collection.from_xml", COL)], ["attributes and classes of the loaded collection", "contents of the saved file"])
p("C40", "Saved settings and templates give back the same values",
  "Saving the settings of a device writes exactly the constant attributes that the given association may write and that differ from the description of the device type, or reports that there are none; restoring them into a collection of the same device gives exactly these values and leaves all other attributes. "
  "A description of settings in any of the formats is refused when it names another device, and otherwise sets every attribute that can be set. "
  "A template holds the used attributes of the first of its devices as text and gives them back as the same values, on all its devices that have them (a device that refuses one leaves it for the others), with the same set of used attributes, devices and verified mark; saving changes nothing. A used attribute that the first device does not have (value or object) is taken from the next device that has it; when none has it, saving is a ValueError and writes no file. A full dump of a collection gives back all its values.",
  ["inputs"], "all associations of descriptions of the library, 0..8 writable attributes with generated values (and not writable ones), templates of one or two devices, descriptions of settings of formats 2.x, 3.x and 4.0 and of templates with foreign parts in the header, unknown objects and wrong values", "The tests save one attribute of one device and look at no result.",
  [COL],
  [("Collection.to_xml2 / from_xml2", COL), ("to_xml4 / from_xml4", COL)], ["attributes of the restored collection", "used attributes, devices, mark"])
RPT = "cosem_interface_classes/reports.py"
DAT = "cosem_interface_classes/implementations/data.py"
p("C41", "Text reports name every value, member, event, bit and state correctly",
  "The report of an object has one line for each requested attribute that is present, with its name and its value, and all members of arrays and structures under their names at their depth; pieces of structures shown by a pattern of the configuration show the values of that pattern. "
  "Event codes, power quality bits, seals, communication channels, signal levels, control modes and output states and the states of the clock are shown with the text of exactly that code or bit, unknown ones are marked with their number, and parts of a combined value can be changed one by one.",
  ["inputs"], "all codes of all event tables (16 and 32 bit), all octets of seals, channels, signal levels and modes, power quality words, objects of every class with generated attributes", "Tests print one report without looking at it.",
  [RPT, DAT, "cosem_interface_classes/gsm_diagnostic/ver0.py", "cosem_interface_classes/disconnect_control.py"],
  [("get_obj_report", RPT), ("...EventValues.get_report, PowerQuality, SealUnsigned, ChannelNumberValue", DAT), ("SignalQuality.get_report", "cosem_interface_classes/gsm_diagnostic/ver0.py")], ["text of reports", "encoded octet"])
IMT = "cosem_interface_classes/image_transfer/ver0.py"
p("C42", "Blocks of an image put together give the image, also after a resumption",
  "For any image and block size the blocks taken one after another are numbered from 0 without gaps, each is block size octets long except the last one, and put together they give the image; the end is reported by StopIteration and a block number outside of the image is rejected. "
  "The announcement carries the identifier and full size of the image. Loading the same image again resumes at the last block that may not have been received, another image starts at block 0, and the part sent is number divided by count. A block size of 0 is rejected.",
  ["histories"], "histories of up to 15 loads, next blocks, jumps, clears and changes of block size; images of 1..6000 octets, block sizes 1..1000", "Tests send one image once.",
  [IMT], [("ImageTransfer.set_image_for_update / set_next_block / set_block_for_transfer", IMT)], ["blocks and numbers", "announcement", "rejection"])
HSU = "cosem_interface_classes/iec_hdlc_setup/ver1.py"
p("C43", "HDLC setup keeps what was negotiated; a shown or hidden secret stays the same",
  "Parameters negotiated in the information field of a UA frame (values of any length, any order, some missing) end up in exactly their attributes of the HDLC setup object, and a malformed field is rejected and leaves all of them; parameters equal to the defaults are not asked for. "
  "A speed in bauds and its code are the same value, address 0 means none. The way a secret of an association is shown changes its text only: octets and encoding stay, the shown text gives the same secret back, and a hidden one discloses no octet. What kind of secret an association takes follows from its authentication mechanism, also when that is changed.",
  ["inputs", "histories"], "sequences of 1..4 information fields, correct, cut, with unknown tags, too big values, wrong lengths; secrets of 0..20 octets in 1..5 representations", "Tests negotiate once with one field.",
  [HSU, "cosem_interface_classes/association_ln/ver0.py"], [("IECHDLCSetup.set_from_info", HSU), ("LLCSecret / LLCSecretHigh", "cosem_interface_classes/association_ln/ver0.py")], ["attributes", "text and octets of the secret", "rejection"])
p("C44", "Text typed in is accepted exactly when the value could take it",
  "Checking a typed text (validate_from with the cursor at its end) never changes the value it is typed for. A text of which the type makes a value is always accepted, and the text that is returned makes the same value, with the cursor behind it. "
  "Another text is refused with ValueError, unless it begins a value: the first letters of the name of a member of an enumeration, an octet without its last digit, a number that wants a digit, a logical name without its last point, the last flags of a bit set, a date or time that becomes one with a separator. "
  "A number with scaler takes the texts that it can be set to. A secret of high level takes the text of its sixteen octets, or of its sixteen characters when it is shown by them, and the beginning of it.",
  ["inputs"], "texts of values of all simple types, the same texts with an inserted, replaced or removed character, beginnings of names of members, arbitrary texts; numbers with scalers", "Tests do not check typed text.",
  [CDT, CST, "types/implementations/bitstrings.py"],
  [("validate_from of Digital, Float, Enum, OctetString, __DateTime, FlagMixin, BitString", CDT), ("LogicalName.validate_from", CST), ("Conformance.validate_from", "types/implementations/bitstrings.py")], ["returned text and cursor", "rejection", "encoding of the value"])
p("C45", "Interface classes are those of the Blue Book",
  "For every supported class and version: the attributes and methods have the index, name and type of the Blue Book (DLMS UA 1000-1), so every value of that type is taken, encodes to the same octets and can be set and read back, and a value of another type, with a missing or additional member, a wrong member at any depth, a reserved enumerated value or a number outside of the allowed range is refused. "
  "Static attributes are copied to another object of the class, process values (dynamic attributes) are not. New objects have the default values of the Blue Book. Data objects of SPODES 3 and of known manufacturers have the type of their specification.",
  ["inputs"], "all 32 class versions with generated values of each attribute and parameters of each method, correct ones and ones with one error at any depth; initial values; copies of generated objects", "The tests set a few attributes of a few classes.",
  [ICM, "cosem_interface_classes/demand_register/ver0.py", COL, DAT],
  [("ICAElement / ICMElement tables of the classes", "cosem_interface_classes/demand_register/ver0.py"), ("COSEMInterfaceClasses.copy", ICM), ("func_maps", COL)], ["acceptance or rejection of the encoding", "encoding read back", "names, amount and defaults"])
