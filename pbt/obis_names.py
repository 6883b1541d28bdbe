"""names of single logical names: value groups A, B, C, D, E (b, e: any), names of its parts. The first row that fits counts"""
TABLE = """
0.b.0.2.0 {ACTIVE_FIRMWARE_IDENTIFIER}{B}
0.b.0.2.1 {ACTIVE_FIRMWARE_VERSION}{B}
0.b.0.2.8 {ACTIVE_FIRMWARE_SIGNATURE}{B}
0.b.1.0.e {class_CLOCK}{B}{E}
0.b.2.0.e {class_MODEM_CONFIGURATION}{B}{E}
0.b.10.0.0 {GLOBAL_METER_RESET_SCRIPT_TABLE}{B}
0.b.10.0.1 {MDI_RESET_END_OF_BILLING_PERIOD_SCRIPT_TABLE}{B}
0.b.10.0.100 {TARIFFICATION_SCRIPT_TABLE}{B}
0.b.10.0.103 {SET_OUTPUT_SIGNALS_SCRIPT_TABLE}{B}
0.b.10.0.106 {DISCONNECT_CONTROL_SCRIPT_TABLE}{B}
0.b.10.0.107 {IMAGE_ACTIVATION_SCRIPT_TABLE}{B}
0.b.10.0.108 {PUSH_SCRIPT_TABLE}{B}
0.b.10.0.128 {RU_STOP_FRAME_SCRIPT_TABLE}{B}
0.b.11.0.e {class_SPECIAL_DAYS_TABLE}{B}{E}
0.b.12.0.e {class_SCHEDULE}{B}{E}
0.b.13.0.e {class_ACTIVITY_CALENDAR}{B}{E}
0.b.14.0.e {class_REGISTER_ACTIVATION}{B}{E}
0.b.15.0.0 {END_OF_BILLING_PERIOD_SINGLE_ACTION_SCHEDULE}{B}
0.b.15.0.1 {DISCONNECT_CONTROL_SINGLE_ACTION_SCHEDULE}{B}
0.b.15.0.2 {IMAGE_ACTIVATION_SINGLE_ACTION_SCHEDULE}{B}
0.b.15.0.3 {OUTPUT_CONTROL_SINGLE_ACTION_SCHEDULE}{B}
0.b.15.0.4 {PUSH_SINGLE_ACTION_SCHEDULE}{B}
0.b.15.0.5 {LOAD_PROFILE_CONTROL_SINGLE_ACTION_SCHEDULE}{B}
0.b.15.0.6 {M_BUS_PROFILE_CONTROL_SINGLE_ACTION_SCHEDULE}{B}
0.b.15.0.7 {FUNCTION_CONTROL_SINGLE_ACTION_SCHEDULE}{B}
0.b.16.1.1 {RU_ALARM_MONITOR_1}{B}
0.b.17.0.0 {RU_LIMITER_BY_POWER}{B}
0.b.17.0.1 {RU_LIMITER_BY_CURRENT}{B}
0.b.17.0.2 {RU_LIMITER_BY_VOLTAGE}{B}
0.b.17.0.3 {RU_LIMITER_BY_MAGNETIC}{B}
0.b.17.0.4 {RU_LIMITER_BY_DIFFERENCE_CURRENT}{B}
0.b.17.0.5 {RU_LIMITER_BY_TEMPERATURE}{B}
0.b.17.0.e {class_LIMITER}{B}{E}
0.0.21.0.1 {GENERAL_DISPLAY_READOUT}
0.0.21.0.2 {ALTERNATE_DISPLAY_READOUT}
0.0.22.0.0 {RU_IEC_HDLC_SETUP_OPTO}
0.1.22.0.0 {RU_IEC_HDLC_SETUP_RS_485}
0.2.22.0.0 {RU_IEC_HDLC_SETUP_GSM}
0.b.22.0.0 {class_IEC_HDLC_SETUP}{B}
0.b.25.0.0 {class_TCP_UDP_SETUP}{B}
0.b.25.1.0 {class_IPV4_SETUP}{B}
0.b.25.4.0 {class_GPRS_MODEM_SETUP}{B}
0.b.25.6.0 {class_GSM_DIAGNOSTIC}{B}
0.b.25.9.0 {class_PUSH_SETUP}{B}
0.b.25.10.0 {class_NTP_SETUP}{B}
0.0.40.0.0 {CURRENT_ASSOCIATION}
0.0.40.0.1 {RU_PUBLIC_CLIENT_ASSOCIATION}
0.0.40.0.2 {RU_METER_READER_ASSOCIATION}
0.0.40.0.3 {RU_UTILITY_SETTING_ASSOCIATION}
0.0.40.0.4 {RU_PUBLIC_CLIENT_ASSOCIATION}
0.0.40.0.e {class_ASSOCIATION_LN}{E}
0.0.42.0.0 {COSEM_LOGICAL_DEVICE_NAME}
0.0.43.0.e {class_SECURITY_SETUP}{E}
0.b.43.1.e {INVOCATION_COUNTER}{B}{E}
0.0.44.0.e {class_IMAGE_TRANSFER}{E}
0.0.94.7.1 {RU_SPECIFIC_PASSPORT_DATA_PROFILE}
0.b.96.1.0 {RU_DEVICE_FACTORY_NUMBER}{B}
0.b.96.1.1 {RU_DEVICE_TYPE}{B}
0.b.96.1.2 {RU_DEVICE_METROLOGICAL_VERSION}{B}
0.b.96.1.3 {RU_PRODUCER_NAME}{B}
0.b.96.1.4 {RU_DEVICE_RELEASE_DATE}{B}
0.b.96.1.5 {RU_REMOTE_CONSOLE_SERIAL_NUMBER}{B}
0.b.96.1.6 {RU_SPODES_VERSION}{B}
0.b.96.1.7 {RU_DEVICE_CONNECTION_SCHEME}{B}
0.b.96.1.8 {SPODES3_NOT_METROLOGICAL_FIRMWARE_ID}{B}
0.b.96.1.9 {RU_DEVICE_ID}{B}
0.b.96.1.10 {RU_COUNTER_POINT_DATA}{B}
0.b.96.2.0 {NUMBER_OF_CONFIGURATION_PROGRAM_CHANGES}{B}
0.b.96.2.1 {DATE_A_OF_LAST_CONFIGURATION_PROGRAM_CHANGE}{B}
0.b.96.2.2 {DATE_A_OF_LAST_TIME_SWITCH_PROGRAM_CHANGE}{B}
0.b.96.2.3 {DATE_A_OF_LAST_RIPPLE_CONTROL_RECEIVER_PROGRAM_CHANGE}{B}
0.b.96.2.4 {STATUS_OF_SECURITY_SWITCHES}{B}
0.b.96.2.5 {DATE_A_OF_LAST_CALIBRATION}{B}
0.b.96.2.6 {DATE_A_OF_NEXT_CONFIGURATION_PROGRAM_CHANGE}{B}
0.b.96.2.7 {DATE_A_OF_ACTIVATION_OF_THE_PASSIVE_CALENDAR}{B}
0.b.96.2.10 {NUMBER_OF_PROTECTED_CONFIGURATION_PROGRAM_CHANGES}{B}
0.b.96.2.11 {DATE_A_OF_LAST_PROTECTED_CONFIGURATION_PROGRAM_CHANGE}{B}
0.b.96.2.12 {DATE_A_CORRECTED_OF_LAST_CLOCK_SYNCHRONIZATION_SETTING}{B}
0.b.96.2.13 {DATE_OF_LAST_FIRMWARE_ACTIVATION}{B}
0.b.96.3.0 {I_O_CONTROL_SIGNAL_OBJECTS_GLOBAL}{B}
0.b.96.3.10 {class_DISCONNECT_CONTROL}{B}
0.b.96.3.20 {RU_RELAY_LOAD_ARBITRATOR}{B}
0.0.96.4.1 {RU_LCD_BACKLIGHT_MODE}
0.0.96.4.3 {RU_LOAD_LOCK_STATUS}
0.0.96.5.0 {INTERNAL_OPERATING_STATUS_GLOBAL}
0.0.96.5.1 {INTERNAL_OPERATING_STATUS_1}
0.0.96.5.2 {INTERNAL_OPERATING_STATUS_2}
0.0.96.5.3 {INTERNAL_OPERATING_STATUS_3}
0.0.96.5.4 {INTERNAL_OPERATING_STATUS_4}
0.0.96.5.132 {SPODES3_PHASE_ALTERNATING_CONTROL}
0.b.96.8.0 {TIME_OF_OPERATION}{B}
0.b.96.8.10 {RU_DURATION_OF_FAILURE_OVERSTRAIN}{B}
0.b.96.9.0 {RU_AMBIENT_TEMPERATURE}{B}
0.b.96.11.0 {EVENTS_RELATED_TO_VOLTAGE}{B}
0.b.96.11.1 {RU_EVENTS_RELATED_TO_CURRENT}{B}
0.b.96.11.2 {RU_EVENTS_RELATED_TO_LOAD_RELAY}{B}
0.b.96.11.3 {RU_EVENTS_FOR_PROGRAMMING_DEVICE_PARAMETERS}{B}
0.b.96.11.4 {RU_EXTERNAL_IMPACT_EVENTS}{B}
0.b.96.11.5 {RU_COMMUNICATION_EVENTS}{B}
0.b.96.11.6 {RU_ACCESS_CONTROL_EVENTS}{B}
0.b.96.11.7 {RU_EVENT_CODES_FOR_THE_SELF_DIAGNOSIS_LOG}{B}
0.b.96.11.8 {RU_EVENTS_FOR_EXCEEDING_THE_REACTIVE_POWER}{B}
0.b.96.12.4 {RU_CHANNEL_NUMBER_INTERFACE}{B}
0.b.96.12.6 {COMMUNICATION_ADDRESS}{B}
0.128.96.12.0 {KPZ_INTERFACE_LIST}
0.b.96.13.0 {LOCAL_CONSUMER_MESSAGE}{B}
0.b.96.13.1 {DISPLAY_CONSUMER_MESSAGE}{B}
0.b.96.15.0 {RU_RELAY_TRIGGERING_METER_FOR_OPENING}{B}
0.b.96.20.0 {METER_OPEN_EVENT_COUNTER}{B}
0.b.96.20.1 {METER_OPEN_EVENT_TIME_STAMP}{B}
0.b.96.20.2 {METER_OPEN_EVENT_DURATION}{B}
0.b.96.20.3 {METER_OPEN_EVENT_CUMULATIVE_DURATION}{B}
0.b.96.20.5 {TERMINAL_COVER_OPEN_EVENT_COUNTER}{B}
0.b.96.20.6 {TERMINAL_COVER_OPEN_EVENT_TIME_STAMP}{B}
0.b.96.20.7 {TERMINAL_COVER_OPEN_EVENT_DURATION}{B}
0.b.96.20.8 {TERMINAL_COVER_OPEN_EVENT_CUMULATIVE}{B}
0.b.96.20.10 {TILT_EVENT_COUNTER}{B}
0.b.96.20.11 {TILT_EVENT_TIME_STAMP}{B}
0.b.96.20.12 {TILT_EVENT_DURATION}{B}
0.b.96.20.13 {TILT_EVENT_CUMULATIVE_DURATION}{B}
0.b.96.20.15 {STRONG_DC_MAGNETIC_FIELD_EVENT_COUNTER}{B}
0.b.96.20.16 {STRONG_DC_MAGNETIC_FIELD_EVENT_TIME_STAMP}{B}
0.b.96.20.17 {STRONG_DC_MAGNETIC_FIELD_EVENT_DURATION}{B}
0.b.96.20.18 {STRONG_DC_MAGNETIC_FIELD_EVENT_CUMULATIVE_DURATION}{B}
0.b.96.20.20 {SUPPLY_CONTROL_SWITCH_VALVE_TAMPER_EVENT_COUNTER}{B}
0.b.96.20.21 {SUPPLY_CONTROL_SWITCH_VALVE_TAMPER_EVENT_TIME_STAMP}{B}
0.b.96.20.22 {SUPPLY_CONTROL_SWITCH_VALVE_TAMPER_EVENT_DURATION}{B}
0.b.96.20.23 {SUPPLY_CONTROL_SWITCH_VALVE_TAMPER_EVENT_CUMULATIVE_DURATION}{B}
0.b.96.20.25 {METROLOGY_TAMPER_EVENT_COUNTER}{B}
0.b.96.20.26 {METROLOGY_TAMPER_EVENT_TIME_STAMP}{B}
0.b.96.20.27 {METROLOGY_TAMPER_EVENT_DURATION}{B}
0.b.96.20.28 {METROLOGY_TAMPER_EVENT_CUMULATIVE_DURATION}{B}
0.b.96.20.30 {COMMUNICATION_TAMPER_EVENT_COUNTER}{B}
0.b.96.20.31 {COMMUNICATION_TAMPER_EVENT_TIME_STAMP}{B}
0.b.96.20.32 {COMMUNICATION_TAMPER_EVENT_DURATION}{B}
0.b.96.20.33 {COMMUNICATION_TAMPER_EVENT_CUMULATIVE_DURATION}{B}
0.0.96.51.0 {RU_BODY_OPENING_STATE}
0.0.96.51.1 {RU_TERMINALS_COVER_OPENING_STATE}
0.0.96.51.3 {RU_MAGNETIC_FIELD_STATE}
0.0.96.51.4 {RU_HF_FIELD_STATE}
0.0.96.51.5 {RU_ELECTRONIC_SEALS_FIXED_STATE_OF_EVENTS}
0.0.96.51.6 {RU_PRESSING_ELECTRONIC_SEALS}
0.0.96.51.7 {RU_CLEAR_OF_ELECTRONIC_SEALS_FIXED_STATE}
0.0.96.51.8 {RU_FIRST_OPENING_TIME_OF_BODY}
0.0.96.51.9 {RU_FIRST_OPENING_TIME_OF_TERMINALS_COVER}
0.0.97.98.0 {RU_ALARM_REGISTER_1}
0.0.97.98.1 {RU_ALARM_REGISTER_2}
0.0.97.98.10 {RU_ALARM_FILTER_1}
0.0.97.98.11 {RU_ALARM_FILTER_2}
0.b.99.1.e {LOAD_PARAMETERS_PROFILE}{B}{E}
0.b.99.13.e {GSM_DIAGNOSTIC_PROFILE}{B}{E}
0.b.99.98.0 {RU_VOLTAGE_LOG}{B}
0.b.99.98.1 {RU_CURRENT_LOG}{B}
0.b.99.98.2 {RU_COMMUTATION_LOG}{B}
0.b.99.98.3 {RU_DATA_CORRECTION_LOG}{B}
0.b.99.98.4 {RU_EXTERNAL_IMPACT_LOG}{B}
0.b.99.98.5 {RU_COMMUNICATION_LOG}{B}
0.b.99.98.6 {RU_ACCESS_LOG}{B}
0.b.99.98.7 {RU_SELF_DIAGNOSTIC_LOG}{B}
0.b.99.98.8 {RU_REACTIVE_POWER_LOG}{B}
0.b.99.98.9 {RU_QUALITY_POWER_LOG}{B}
0.b.99.98.10 {RU_STATUS_I_O_LOG}{B}
0.b.99.98.12 {RU_REACTIVE_POWER_LIMIT_LOG}{B}
0.b.99.98.13 {RU_TIME_CORRECTION_LOG}{B}
0.b.99.98.14 {RU_START_YEAR_LOG}{B}
0.b.99.98.15 {RU_QUALITY_FOR_CALCULATION_PERIOD_LOG}{B}
0.b.99.98.16 {RU_CONTROL_POWER_LOG}{B}
0.b.99.98.17 {RU_BATTERY_LOG}{B}
0.b.99.98.18 {RU_CONTROL_OF_LOAD_RELAY_BLOCKER_LOG}{B}
0.b.99.98.19 {RU_TEMPERATURE_CONTROL_LOG}{B}
0.b.99.98.20 {RU_VOLTAGE_DEVIATION_LOG} {L1}{B}
0.b.99.98.21 {RU_VOLTAGE_DEVIATION_LOG} {L2}{B}
0.b.99.98.22 {RU_VOLTAGE_DEVIATION_LOG} {L3}{B}
0.b.99.98.23 {RU_LINEAR_VOLTAGE_DEVIATION_LOG} {L1_L2}{B}
0.b.99.98.24 {RU_LINEAR_VOLTAGE_DEVIATION_LOG} {L2_L3}{B}
0.b.99.98.25 {RU_LINEAR_VOLTAGE_DEVIATION_LOG} {L3_L1}{B}
0.b.99.98.26 {RU_OVER_VOLTAGE_LOG}{B}
0.b.99.98.27 {RU_VOLTAGE_INTERRUPTION_LOG}{B}
0.b.99.98.28 {RU_ABNORMAL_NETWORK_SITUATION_LOG}{B}
0.b.99.98.e {class_PROFILE_GENERIC}{B}{E}
0.0.128.99.0 {KPZ_RELAY_TURN_COUNTER}
0.0.128.100.0 {ITE_FIRMWARE_DESCRIPTOR}
0.0.128.101.0 {ITE_MAGNETIC_SENSOR_STATUS}
0.0.128.102.0 {ITE_DISCRETE_OUTPUTS}
0.0.128.103.0 {ITE_SETTING_OF_RELAY_INCLUSION_PER_DAY}
0.0.128.150.0 {ITE_SETTINGS_MESSAGES}
0.0.128.151.0 {ITE_CORE_REGISTERS}
0.0.128.152.0 {ITE_BLE_ID}
0.0.128.170.0 {ITE_ICCID}
0.0.128.171.0 {KPZ_IMSI}
0.128.154.0.0 KPZPingTestSetup
1.b.0.0.e {COMPLETE_COMBINED_ELECTRICITY_ID} {e1}{B}
1.b.0.2.0 {ACTIVE_FIRMWARE_IDENTIFIER}{B}
1.b.0.2.8 {ACTIVE_FIRMWARE_SIGNATURE}{B}
1.b.0.3.3 {ACTIVE_ENERGY_OUTPUT_PULSE}{B}
1.b.0.3.4 {REACTIVE_ENERGY_OUTPUT_PULSE}{B}
1.b.0.4.2 {TRANSFORMER_RATIO_CURRENT}{B}
1.b.0.4.3 {TRANSFORMER_RATIO_VOLTAGE}{B}
1.b.0.6.0 {NOMINAL_VOLTAGE}{B}
1.b.0.6.1 {NOMINAL_CURRENT}{B}
1.b.0.6.2 {NOMINAL_FREQUENCY}{B}
1.b.0.6.3 {MAXIMUM_CURRENT}{B}
1.b.0.6.4 {REFERENCE_VOLTAGE_FOR_POWER_QUALITY_MEASUREMENT}
1.b.0.6.5 {REFERENCED_VOLTAGE_FOR_AUX_POWER_SUPPLY}{B}
1.b.0.8.4 {RECORDING_INTERVAL_1_FOR_LOAD_PROFILE}{B}
1.b.0.8.5 {RECORDING_INTERVAL_2_FOR_LOAD_PROFILE}{B}
1.b.0.10.0 {TRANSFORMER_MAGNETIC_LOSSES}{B}
1.b.0.10.1 {TRANSFORMER_IRON_LOSSES}{B}
1.b.0.10.2 {LINE_RESISTANCE_LOSSES}{B}
1.b.0.10.3 {LINE_REACTANCE_LOSSES}{B}
1.b.91.7.131 {RU_DIFFERENTIAL_CURRENT}. {INSTANTANEOUS_VALUE}{B}
1.b.91.7.132 {RU_DIFFERENTIAL_CURRENT}. {PERCENT}. {INSTANTANEOUS_VALUE}{B}
1.0.148.36.0 {OVER_VOLTAGE_COUNTER} {BILLING_PERIOD}
1.b.94.7.0 {RU_PROFILE_OF_CURRENT_VALUES}{B}
1.b.94.7.1 {RU_SCALE_PROFILE_FOR_THE_MAGAZINE_OF_MONTHLY_INDICATIONS}{B}
1.b.94.7.2 {RU_SCALE_PROFILE_FOR_A_JOURNAL_OF_DAILY_INDICATION}{B}
1.b.94.7.3 {RU_SCALE_PROFILE_FOR_CURRENT_FRAMES_OF_CURRENT_VALUES}{B}
1.b.94.7.4 {RU_SCALE_PROFILE_FOR_LOAD_PROFILES}{B}
1.b.94.7.5 {RU_TELEMECHANICS_PROFILE_FOR_TELEVISION_MEASUREMENTS}{B}
1.b.94.7.6 {RU_TELEMECHANICS_PROFILE_OF_TELEVISION_SIGNALING}{B}
1.b.94.7.e {COUNTRY_SPECIFIC_IDENTIFIER} #{e1}{B}
1.b.98.1.e {RU_MONTHLY_PROFILE}{B}{E}
1.b.98.2.e {RU_DAILY_PROFILE}{B}{E}
1.b.99.1.e {RU_LOAD_PROFILE}{B}{E}
1.b.99.2.e {RU_LOAD_PROFILE} #2{B}{E}
128.0.0.0.0 {ITE_CALIBRATION_STATUS}
128.0.1.0.0 {ITE_CALIBRATION_APPARENT_POWER}
128.0.2.0.0 {ITE_CALIBRATION_ACTIVE_POWER}
128.0.3.0.0 {ITE_CALIBRATION_REACTIVE_POWER}
128.0.4.0.0 {ITE_CALIBRATION_VOLTAGE}
128.0.5.0.0 {ITE_CALIBRATION_CURRENT}
128.0.6.0.0 {ITE_CALIBRATION_ANGLE}
128.0.7.0.0 {ITE_DISPLAY_SETTING_1}
128.0.8.0.0 {ITE_DISPLAY_SETTING_2}
128.0.9.0.0 {ITE_CLOCK_OFFSET_SETTING}
128.0.10.0.0 {ITE_FACTORY_SETTING_10}
128.0.11.0.0 {ITE_FACTORY_SETTING_11}
128.0.12.0.0 {ITE_FACTORY_SETTING_12}
128.0.13.0.0 {ITE_FACTORY_SETTING_13}
128.0.14.0.0 {ITE_FACTORY_SETTING_14}
128.0.15.0.0 {ITE_FACTORY_SETTING_15}
128.0.16.0.0 {ITE_FACTORY_SETTING_16}
128.0.17.0.0 {ITE_FACTORY_SETTING_17}
128.0.18.0.0 {ITE_FACTORY_SETTING_18}
128.0.19.0.0 {ITE_FACTORY_SETTING_19}
"""
