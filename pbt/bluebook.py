"""Interface classes as DLMS UA 1000-1 (Blue Book) Ed.14 gives them: names, types and kind (static, dynamic) of attributes, names and types of methods.

Types: "u8".."u64", "i8".."i64", "bool", "bits", "o" (octet-string), "vs", "f32", "f64", "dt", "d", "t", "null", "ln" (octets of a logical name),
"odt", "od", "ot" (octets of date-time, date, time), ("bits", length), ("enum", values[, values that are not judged]), ("int", type, min, max) , ("few", tag, values) number of one octet,
("some", tag, values) the same, others are not judged, ("lit", hex...) given encodings, "sap" address of a server, "modem" a result code of a modem,
("arr", type), ("struct", (name, type)...), ("any", types) choice, ("by", {selector: type}) as the last member of a structure: chosen by the first one"""

S, D, N = "static", "dynamic", None      # None: not judged


def struct(**members):
    return ("struct", *members.items())


def arr(t):
    return ("arr", t)


def enum(*values, may=()):
    return ("enum", values, may)


def enum8(*values):
    """unsigned with few legal values"""
    return ("few", 17, values)


ZERO = ("few", 15, (0,))
SIMPLE = ("any", ("null", "bool", "bits", "i32", "u32", "o", "vs", "i8", "i16", "u8", "u16", "i64", "u64", "anyenum", "f32", "f64", "dt", "d", "t"))
VALUE = ("any", (*SIMPLE[1], "array", "structure"))
EXTENDED = ("any", ("null", "bits", "u32", "o", "vs", "u8", "u16", "u64"))
REGISTER = ("any", (*EXTENDED[1], "i32", "i8", "i16", "i64", "anyenum", "f32", "f64"))
SCALER = struct(scaler="i8", unit=enum(*range(1, 72), *range(253, 256), may=(0, *range(72, 253))))
OBJECT = struct(class_id="u16", logical_name="ln")
CAPTURE = struct(class_id="u16", logical_name="ln", attribute_index="i8", data_index="u16")
VALUE_DEF = struct(class_id="u16", logical_name="ln", attribute_index="i8")
SCRIPT = struct(script_logical_name="ln", script_selector="u16")
INDEX = ("int", "u16", 1, 9999)
ENTRY = struct(index=INDEX, enable="bool", script_logical_name="ln", script_selector="u16", switch_time="ot", validity_window="u16", exec_weekdays="bits", exec_specdays="bits",
               begin_date="od", end_date="od")
SPECIAL = struct(index="u16", specialday_date="od", day_id="u8")
SPEED = enum(*range(10))
QOS = struct(precedence="u8", delay="u8", reliability="u8", peak_throughput="u8", mean_throughput="u8")
SEASON = arr(struct(season_profile_name="o", season_start="odt", week_name="o"))
WEEK = arr(struct(week_profile_name="o", monday="u8", tuesday="u8", wednesday="u8", thursday="u8", friday="u8", saturday="u8", sunday="u8"))
DAY = arr(struct(day_id="u8", day_schedule=arr(struct(start_time="ot", script_logical_name="ln", script_selector="u16"))))
MASK = struct(mask_name="o", index_list=arr("u8"))
NTP_KEY = struct(key_id="u32", key="o")


def element(mode, meth):
    return struct(class_id="u16", version="u8", logical_name="ln", access_rights=struct(
        attribute_access=arr(struct(attribute_id="i8", access_mode=mode, access_selectors=("any", ("null", arr("i8"))))),
        method_access=arr(struct(method_id="i8", access_mode=meth))))


OID = dict(joint_iso_ctt_element="u8", country_element="u8", country_name_element="u16", identified_organization_element="u8", DLMS_UA_element="u8")
CONTEXT = struct(**OID, application_context_element="u8", context_id_element="u8")
MECHANISM = struct(**OID, authentication_mechanism_name_element="u8", mechanism_id_element=("few", 17, tuple(range(8))))


def oid(t, first, amount):
    """structure or octets of an object identifier"""
    return ("any", (t, ("lit", *(f"09076085740508{first:02x}{i:02x}" for i in range(amount)))))


def association(mode, meth, more=(), octets=True):
    e = element(mode, meth)
    return {
        "a": [("object_list", arr(e), S), ("associated_partners_id", struct(client_SAP=("some", 15, (1, 16, 32, 48)), server_SAP="sap"), S),
              ("application_context_name", oid(CONTEXT, 1, 5) if octets else CONTEXT, S), ("xDLMS_context_info", struct(conformance=("bits", 24), max_receive_pdu_size="u16", max_send_pdu_size="u16", dlms_version_number="u8",
                                                                                  quality_of_service="i8", cyphering_info="o"), S),
              ("authentication_mechanism_name", oid(MECHANISM, 2, 8) if octets else MECHANISM, S), ("LLS_secret", "o", N), ("association_status", enum(0, 1, 2), D), *more],
        "m": [("reply_to_HLS_authentication", "o"), ("change_HLS_secret", "o"), ("add_object", e), ("remove_object", e)]}


CERT_ID = struct(certificate_identification_type=enum(0, 1), certification_identification_options=("by", {
    0: struct(certificate_entity=enum(0, 1, 2, 3), certificate_type=enum(0, 1, 2, 3), system_title="o"),
    1: struct(serial_number="o", issuer="o")}))
RESTRICTION = struct(restriction_type=enum(0, 1, 2), restriction_value=("by", {0: "null", 1: struct(from_date="od", to_date="od"), 2: struct(from_entry="u32", to_entry="u32")}))
KEY_INFO = struct(key_info_type=enum(0, 1, 2), key_info_options=("by", {0: enum(0, 1), 1: struct(kek_id=enum(0), key_ciphered_data="o"), 2: struct(key_parameters="o", key_ciphered_data="o")}))
PROTECTION = struct(protection_type=enum(0, 1, 2, 3), protection_options=struct(transaction_id="o", originator_system_title="o", recipient_system_title="o", other_information="o",
                                                                                key_info=KEY_INFO))

CLASSES = {
    (1, 0): {"a": [("value", VALUE, N)], "m": []},
    (3, 0): {"a": [("value", REGISTER, N), ("scaler_unit", SCALER, S)], "m": [("reset", ZERO)]},
    (4, 0): {"a": [("value", REGISTER, N), ("scaler_unit", SCALER, S), ("status", EXTENDED, D), ("capture_time", "odt", D)], "m": [("reset", ZERO)]},
    (5, 0): {"a": [("current_average_value", REGISTER, D), ("last_average_value", REGISTER, D), ("scaler_unit", SCALER, S), ("status", EXTENDED, D), ("capture_time", "odt", D),
                   ("start_time_current", "odt", D), ("period", "u32", S), ("number_of_periods", "u16", S)], "m": [("reset", ZERO), ("next_period", ZERO)]},
    (6, 0): {"a": [("register_assignment", arr(OBJECT), S), ("mask_list", arr(MASK), S), ("active_mask", "o", S)], "m": [("add_register", OBJECT), ("add_mask", MASK), ("delete_mask", "o")]},
    (7, 1): {"a": [("buffer", None, D), ("capture_objects", arr(CAPTURE), S), ("capture_period", "u32", S), ("sort_method", enum(1, 2, 3, 4, 5, 6), S), ("sort_object", CAPTURE, S),
                   ("entries_in_use", "u32", D), ("profile_entries", "u32", S)], "m": [("reset", ZERO), ("capture", ZERO)]},
    (8, 0): {"a": [("time", "odt", D), ("time_zone", "i16", S), ("status", "u8", D), ("daylight_savings_begin", "odt", S), ("daylight_savings_end", "odt", S),
                   ("daylight_savings_deviation", ("int", "i8", -120, 120), S), ("daylight_savings_enabled", "bool", S), ("clock_base", enum(0, 1, 2, 3, 4, 5), S)],
             "m": [("adjust_to_quarter", ZERO), ("adjust_to_measuring_period", ZERO), ("adjust_to_minute", ZERO), ("adjust_to_preset_time", ZERO),
                   ("preset_adjusting_time", None), ("shift_time", ("int", "i16", -900, 900))]},
    (9, 0): {"a": [("scripts", arr(struct(script_identifier="u16", actions=arr(struct(service_id=enum(1, 2), class_id="u16", logical_name="ln", index="i8", parameter=VALUE)))), S)],
             "m": [("execute", "u16")]},
    (10, 0): {"a": [("entries", arr(ENTRY), S)], "m": [("enable_disable", struct(firstIndexA=INDEX, lastIndexA=INDEX, firstIndexB=INDEX, lastIndexB=INDEX)), ("insert", ENTRY),
                                                       ("delete", struct(firstIndex=INDEX, lastIndex=INDEX))]},
    (11, 0): {"a": [("entries", arr(SPECIAL), S)], "m": [("insert", SPECIAL), ("delete", "u16")]},
    (15, 0): association(enum(0, 1, 2, 3), "bool", octets=False),
    (15, 1): association(enum(*range(7)), enum(0, 1, 2), [("security_setup_reference", "ln", S)]),
    (15, 2): association(enum(*range(7)), enum(0, 1, 2), [("security_setup_reference", "ln", S)]),
    (18, 0): {"a": [("image_block_size", "u32", S), ("image_transferred_blocks_status", "bits", D), ("image_first_not_transferred_block_number", "u32", D), ("image_transfer_enabled", "bool", S),
                    ("image_transfer_status", enum(*range(8)), D),
                    ("image_to_activate_info", arr(struct(image_to_activate_size="u32", image_to_activate_identification="o", image_to_activate_signature="o")), D)],
              "m": [("image_transfer_initiate", struct(image_identifier="o", image_size="u32")), ("image_block_transfer", struct(image_block_number="u32", image_block_value="o")),
                    ("image_verify", ZERO), ("image_activate", ZERO)]},
    (20, 0): {"a": [("calendar_name_active", "o", S), ("season_profile_active", SEASON, S), ("week_profile_table_active", WEEK, S), ("day_profile_table_active", DAY, S),
                    ("calendar_name_passive", "o", S), ("season_profile_passive", SEASON, S), ("week_profile_table_passive", WEEK, S), ("day_profile_table_passive", DAY, S),
                    ("activate_passive_calendar_time", "odt", S)], "m": [("activate_passive_calendar", ZERO)]},
    (21, 0): {"a": [("thresholds", arr(SIMPLE), S), ("monitored_value", VALUE_DEF, S), ("actions", arr(struct(action_up=SCRIPT, action_down=SCRIPT)), S)], "m": []},
    (22, 0): {"a": [("executed_script", SCRIPT, S), ("type", enum(1, 2, 3, 4, 5), S), ("execution_time", arr(struct(time="ot", date="od")), S)], "m": []},
    (23, 1): {"a": [("comm_speed", SPEED, S), ("windows_size_transmit", "u8", S), ("windows_size_receive", "u8", S), ("max_info_field_length_transmit", "u16", S),
                    ("max_info_field_length_receive", "u16", S), ("inter_octet_time_out", "u16", S), ("inactivity_time_out", "u16", S), ("device_address", "u16", S)], "m": []},
    (27, 0): {"a": [("comm_speed", SPEED, S), ("initialization_string", arr(struct(request="o", response="o")), S), ("modem_profile", arr("modem"), S)], "m": []},
    (27, 1): {"a": [("comm_speed", SPEED, S), ("initialization_string", arr(struct(request="o", response="o", delay_after_response="u16")), S), ("modem_profile", arr("modem"), S)], "m": []},
    (40, 2): {"a": [("push_object_list", arr(struct(class_id="u16", logical_name="ln", attribute_index="i8", data_index="u16", restriction=RESTRICTION, column=arr(CAPTURE))), S),
                    ("send_destination_and_method", struct(transport_service=enum(*range(9), *range(200, 256)), destination="o", message=enum(0, 1, *range(128, 256))), S),
                    ("communication_window", arr(struct(start_time="odt", end_time="odt")), S), ("randomisation_start_interval", "u16", S), ("number_of_retries", "u8", S),
                    ("repetition_delay", struct(repetition_delay_min="u16", repetition_delay_exponent="u16", repetition_delay_max="u16"), S), ("port_reference", "ln", S),
                    ("push_client_sap", "i8", S), ("push_protection_parameters", arr(PROTECTION), S), ("push_operation_method", enum(0, 1, 2), S),
                    ("confirmation_parameters", struct(confirmation_start_date="dt", confirmation_interval="u32"), S), ("last_confirmation_date_time", "dt", D)],
              "m": [("push", ZERO), ("reset", ZERO)]},
    (41, 0): {"a": [("TCP_UDP_port", "u16", S), ("IP_reference", "ln", S), ("MMS", "u16", S), ("nb_of_sim_conn", "u8", S), ("inactivity_time_out", "u16", S)], "m": []},
    (42, 0): {"a": [("DL_reference", "o", S), ("IP_address", "u32", S), ("multicast_IP_address", arr("u32"), S),
                    ("IP_options", arr(struct(IP_Option_Type="u8", IP_Option_Length="u8", IP_Option_Data="o")), S), ("subnet_mask", "u32", S), ("gateway_IP_address", "u32", S),
                    ("use_DHCP_flag", "bool", S), ("primary_DNS_address", "u32", S), ("secondary_DNS_address", "u32", S)], "m": []},
    (45, 0): {"a": [("APN", "o", S), ("PIN_code", "u16", S), ("quality_of_service", struct(default=QOS, requested=QOS), S)], "m": []},
    (47, 0): {"a": [("operator", "vs", D), ("status", enum(*range(6)), D), ("cs_attachment", enum(0, 1, 2), D), ("ps_status", enum(*range(5)), D),
                    ("cell_info", struct(cell_ID="u16", location_ID="u16", signal_quality="u8", ber="u8"), D), ("adjacent_cell", arr(struct(cell_ID="u16", signal_quality="u8")), D),
                    ("capture_time", "dt", D)], "m": []},
    (47, 1): {"a": [("operator", "vs", D), ("status", enum(*range(6)), D), ("cs_attachment", enum(0, 1, 2), D), ("ps_status", enum(*range(7)), D),
                    ("cell_info", struct(cell_ID="u32", location_ID="u16", signal_quality="u8", ber="u8", mcc="u16", mnc="u16", channel_number="u32"), D),
                    ("adjacent_cell", arr(struct(cell_ID="u32", signal_quality="u8")), D), ("capture_time", "dt", D)], "m": []},
    (64, 0): {"a": [("security_policy", enum(0, 1, 2, 3, may=range(4, 16)), S), ("security_suite", enum(0, may=range(1, 16)), S), ("client_system_title", "o", D), ("server_system_title", "o", S)],
              "m": [("security_activate", enum(0, 1, 2, 3, may=range(4, 16))), ("global_key_transfer", arr(struct(key_id=enum(0, 1, 2), key_wrapped="o")))]},
    (64, 1): {"a": [("security_policy", None, S), ("security_suite", enum(0, 1, 2, may=range(3, 16)), S), ("client_system_title", "o", D), ("server_system_title", "o", S),
                    ("certificates", arr(struct(certificate_entity=enum(0, 1, 2, 3), certificate_type=enum(0, 1, 2, 3), serial_number="o", issuer="o", subject="o", subject_alt_name="o")), D)],
              "m": [("security_activate", None), ("key_transfer", arr(struct(key_id=enum(0, 1, 2, may=(3,)), key_wrapped="o"))),
                    ("key_agreement", arr(struct(key_id=enum(0, 1, 2, may=(3,)), key_data="o"))), ("generate_key_pair", enum(0, 1, 2)), ("generate_certificate_request", enum(0, 1, 2)),
                    ("import_certificate", "o"), ("export_certificate", CERT_ID), ("remove_certificate", CERT_ID)]},
    (68, 0): {"a": [("actions", arr(SCRIPT), S), ("permission_table", arr("bits"), S), ("weightings_table", arr(arr("u16")), S), ("most_recent_requests_table", arr("bits"), D),
                    ("last_outcome", "u8", D)], "m": [("request_action", struct(request_actor="u8", request_action_list="bits")), ("reset", ZERO)]},
    (70, 0): {"a": [("output_state", "bool", D), ("control_state", enum(0, 1, 2), D), ("control_mode", enum(*range(7), may=range(128, 256)), S)],
              "m": [("remote_disconnect", ZERO), ("remote_reconnect", ZERO)]},
    (71, 0): {"a": [("monitored_value", VALUE_DEF, S), ("threshold_active", SIMPLE, D), ("threshold_normal", SIMPLE, S), ("threshold_emergency", SIMPLE, S), ("min_over_threshold_duration", "u32", S),
                    ("min_under_threshold_duration", "u32", S), ("emergency_profile", struct(emergency_profile_id="u16", emergency_activation_time="odt", emergency_duration="u32"), S),
                    ("emergency_profile_group_id_list", arr("u16"), S), ("emergency_profile_active", "bool", D), ("actions", struct(action_over_threshold=SCRIPT, action_under_threshold=SCRIPT), S)],
              "m": []},
    (100, 0): {"a": [("activated", "bool", S), ("server_address", "o", S), ("server_port", "u16", S), ("authentication_method", enum(0, 1, 2), S), ("authentication_keys", arr(NTP_KEY), S),
                     ("client_key", "o", S)], "m": [("synchronize", ZERO), ("add_authentication_key", NTP_KEY), ("delete_authentication_key", "u32")]},
}

# values of a new object, as the default column says
DEFAULTS = {(5, 0): {9: 1}, (7, 1): {7: 0, 8: 1}, (23, 1): {2: 5, 3: 1, 4: 1, 5: 128, 6: 128, 7: 25, 8: 120}, (27, 0): {2: 5}, (27, 1): {2: 5}, (41, 0): {2: 4059, 6: 180},
            (47, 0): {3: 0, 4: 0, 5: 0}, (47, 1): {3: 0, 4: 0, 5: 0}, (64, 0): {2: 0, 3: 0}, (100, 0): {4: 123}}

# encodings of a value made of nothing
EMPTY = {(15, 0): {4: "0207" "1102" "1110" "1202f4" "1105" "1108" "1101" "1101", 6: "0207" "1102" "1110" "1202f4" "1105" "1108" "1102" "1100"},
         (15, 1): {4: "090760857405080101", 6: "090760857405080200"}, (15, 2): {4: "090760857405080101", 6: "090760857405080200"}}

# values of data objects of SPODES 3 (STO 34.01-5.1-006-2019v3) and of manufacturers: (specification, logical name): type, kind
PERIOD = enum8(1, 2, 3, 5, 10, 15, 20, 30, 60)
DATE_TIME = ("any", ("dt", "d", "t", "odt", "od", "ot"))
DATA = {("SPODES_3", (0, 0, 96, 11, i, 255)): ("u16", D) for i in range(9)} | {
    ("KPZ1", (0, 0, 96, 11, i, 255)): ("u32", S) for i in range(9)} | {
    ("KPZ", (0, 0, 96, 11, i, 255)): ("u16", D) for i in range(9)} | {
    ("SPODES_3", (0, 0, 96, 51, i, 255)): ("u8", D) for i in (0, 1, 3, 4, 5, 6, 7)} | {
    ("SPODES_3", (0, 0, 96, 51, i, 255)): ("odt", D) for i in (8, 9)} | {
    ("SPODES_3", (1, 0, 0, 8, i, 255)): (PERIOD, S) for i in (4, 5)} | {
    ("SPODES_3", (0, 0, 96, 2, i, 255)): (DATE_TIME, D) for i in (1, 2, 3, 5, 6, 7, 11, 12)} | {
    ("SPODES_3", (0, 0, 96, 5, 1, 255)): ("u16", N), ("SPODES_3", (0, 0, 96, 5, 4, 255)): ("u16", N), ("SPODES_3", (0, 0, 96, 5, 132, 255)): ("u8", D),
    ("SPODES_3", (0, 0, 96, 12, 4, 255)): ("u8", D), ("DLMS_6", (0, 0, 96, 12, 4, 255)): ("u8", D), ("DLMS_6", (0, 0, 42, 0, 0, 255)): ("o", S),
    ("KPZ", (0, 128, 96, 13, 1, 255)): (struct(start_time="odt", stop_time="odt", bitmap_data="o"), S),
    ("KPZ", (0, 128, 154, 0, 0, 255)): (struct(enable="u8", multicast_IP_address=arr("u32")), S)}
