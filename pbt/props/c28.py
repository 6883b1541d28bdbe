"""OBIS: medium, relation group and name of a logical name"""
import importlib.util
import re
from itertools import chain
from hypothesis import strategies as st
from ..core import Prop, Facet
from ..obis_names import TABLE
from src.DLMS_SPODES import settings, relation_to_OBIS as rel
from src.DLMS_SPODES.types import cst, cosemClassID
from src.DLMS_SPODES.obis import media_id as m
from src.DLMS_SPODES.cosem_interface_classes import collection as col

ALL = frozenset(range(256))


def S(*parts):
    """set of values: ints and inclusive (from, to) pairs"""
    ret = set()
    for p in parts:
        if isinstance(p, tuple):
            ret.update(range(p[0], p[1] + 1))
        else:
            ret.add(p)
    return frozenset(ret)


ID = S((0, 9), 255)
R63 = S((0, 63))
F99 = S((0, 99), 255)
F125 = S((0, 99), (101, 125), 255)
RULES: list[tuple] = []     # (media values, group class name, b, c, d, e, f)


def rule(a, name, c, d=ALL, e=ALL, f=ALL, b=ALL):
    RULES.append((a, name) + tuple(x if isinstance(x, frozenset) else S(x) for x in (b, c, d, e, f)))


# abstract objects, Blue Book 6.2
A = (0,)
rule(A, "BillingPeriodValuesResetCounterEntries", 0, 1)
rule(A, "OtherAbstractGeneralPurposeObisCodes", 0, S(2, 9))
rule(A, "ClockObjects", 1, S((0, 6)))
rule(A, "ModemConfigurationAndRelatedObjects", 2, S((0, 2)))
rule(A, "ScriptTableObjects", 10, 0, S(0, 1, (100, 111), 125))
rule(A, "SpecialDaysTableObjects", 11, 0)
rule(A, "ScheduleObjects", 12, 0)
rule(A, "ActivityCalendarObjects", 13, 0)
rule(A, "RegisterActivationObjects", 14, 0)
rule(A, "SingleActionScheduleObjects", 15, 0, S((0, 7)))
rule(A, "RegisterObjectsMonitor", 16, 0)
rule(A, "RegisterObjectsMonitor", 16, 1, S((0, 9)))
rule(A, "ParameterMonitorObjects", 16, 2)
rule(A, "LimiterObjects", 17, 0)
rule(A, "ArrayManagerObjects", 18, 0)
rule(A, "PaymentMeteringRelatedObjects", 19, S((0, 9)), 0)
rule(A, "PaymentMeteringRelatedObjects", 19, S((10, 49)))
rule(A, "PaymentMeteringRelatedObjects", 19, S((50, 59)), S(1, 2))
rule(A, "IecLocalPortSetupObjects", 20, 0, S(0, 1))
rule(A, "StandardReadoutProfileObjects", 21, 0)
rule(A, "IecHdlcSetupObjects", 22, 0, 0)
rule(A, "IecTwistedPair1SetupObjects", 23, S(0, 1, 2), 0)
rule(A, "IecTwistedPair1SetupObjects", 23, 3)
rule(A, "ObjectsRelatedToDataExchangeOverMBus", 24, S(0, 1, 4, 5, 6), 0)
rule(A, "ObjectsRelatedToDataExchangeOverMBus", 24, S(2, 8, 9))
rule(A, "ObjectsRelatedToDataExchangeOverMBus", 31, 0, 0)
rule(A, "ObjectsToSetUpDataExchangeOverTheInternet", 25, S((0, 7), (10, 15)), 0)
rule(A, "ObjectsToSetUpPushSetup", 25, 9, 0)
rule(A, "ObjectsForSettingUpDataExchangeUsingSFskPlc", 26, S(0, 1, 2, 3, 5, 6), 0)
rule(A, "ObjectsForSettingUpTheIsoIec88022LlcLayer", 27, S(0, 1, 2), 0)
rule(A, "ObjectsForDataExchangeUsingNarrowbandOfdmPlcForPrimeNetworks", 28, S((0, 7)), 0)
rule(A, "ObjectsForDataExchangeUsingNarrowBandOfdmPlcForG3PlcNetworks", 29, S((0, 2)), 0)
rule(A, "ZigbeeSetupObjects", 30, S((0, 4)))
rule(A, "ObjectsForSettingUpAndManagingDataExchangeUsingIsoIec14908PlcNetworks", 32, S((0, 3)), 0)
rule(A, "ObjectsForDataExchangeUsingHsPlcIsoIec121391IsoEc121391Networks", 33, S((0, 3)), 0)
rule(A, "ObjectsForDataExchangeUsingWiSunNetworks", 34, S((0, 3)), 0)
rule(A, "AssociationObjects", 40, 0, b=S(0))
rule(A, "SapAssignmentObject", 41, 0, 0, b=S(0))
rule(A, "CosemLogicalDeviceNameObject", 42, 0, 0, b=S(0))
rule(A, "InformationSecurityRelatedObjects", 43, 0, b=S(0))
rule(A, "InformationSecurityRelatedObjects", 43, S(1, 2))
rule(A, "ImageTransferObjects", 44, 0, b=S(0))
rule(A, "FunctionControlObjects", 44, 1, b=S(0))
rule(A, "CommunicationPortProtectionObjects", 44, 2, b=S(0))
rule(A, "UtilityTableObjects", 65, R63)
rule(A, "CompactDataObjects", 66, 0)
rule(A, "DeviceIdObjects", 96, 1, ID)
rule(A, "MeteringPointIdObjects", 96, 1, 10)
rule(A, "ParameterChangesAndCalibrationObjects", 96, 2)
rule(A, "IOControlSignalObjects", 96, 3, S((0, 4)))
rule(A, "DisconnectControlObjects", 96, 3, 10)
rule(A, "ArbitratorObjects", 96, 3, S((20, 29)))
rule(A, "StatusOfInternalControlSignalsObjects", 96, 4, S((0, 4)))
rule(A, "InternalOperatingStatusObjects", 96, 5, S((0, 4)))
rule(A, "BatteryEntriesObjects", 96, 6, S((0, 6)))
rule(A, "PowerFailureMonitoringObjects", 96, 7, S((0, 21)))
rule(A, "OperatingTimeObjects", 96, 8, R63)
rule(A, "EnvironmentRelatedParametersObjects", 96, 9, S((0, 2)))
rule(A, "StatusRegisterObjects", 96, 10, S((1, 10)))
rule(A, "EventCodeObjects", 96, 11, S((0, 99)))
rule(A, "CommunicationPortLogParameterObjects", 96, 12, S((0, 6)))
rule(A, "ConsumerMessageObjects", 96, 13, S(0, 1))
rule(A, "CurrentlyActiveTariffObjects", 96, 14, S((0, 15)))
rule(A, "EventCounterObjects", 96, 15, S((0, 99)))
rule(A, "ProfileEntryDigitalSignatureObjects", 96, 16, S((0, 9)))
rule(A, "ProfileEntryCounterObjects", 96, 17, S((0, 127)))
rule(A, "MeterTamperEventRelatedObjects", 96, 20)
rule(A, "AbstractManufacturerSpecific", 96, S((50, 99)))
rule(A, "ErrorRegisterObjects", 97, 97, ID)
rule(A, "AlarmRegisterFilterDescriptorObjects", 97, 98, S((0, 29), 255))
rule(A, "GeneralListObjects", 98)
rule(A, "AbstractDataProfileObjects", 99, S(1, 2, (12, 18)))
rule(A, "AbstractDataProfileObjects", 99, 3, 0)
rule(A, "EventLogObjects", 99, 98)
rule(A, "InactiveObjects", 127, 0)
# electricity, 6.3, 7.5
A = (1,)
rule(A, "IdNumbersElectricity", 0, 0, ID)
rule(A, "BillingPeriodValuesResetCounterEntriesEl", 0, 1)
rule(A, "OtherElectricityRelatedGeneralPurposeObjects", 0, S((2, 4), (6, 10)))
rule(A, "MeasurementAlgorithm", 0, 11, S((1, 7)))
for i, n in enumerate((
        "ActivePowerPlus", "ActivePowerMinus", "ReactivePowerPlus", "ReactivePowerMinus", "ReactivePowerQi", "ReactivePowerQii", "ReactivePowerQiii",
        "ReactivePowerQiv", "ApparentPowerPlus", "ApparentPowerMinus", "Current", "Voltage", "PowerFactor", "SupplyFrequency", "ActivePowerSum",
        "ActivePowerDiff", "ActivePowerQi", "ActivePowerQii", "ActivePowerQiii", "ActivePowerQiv"), start=1):
    rule(A, n, S(i, i + 20, i + 40, i + 60))
rule(A, "ElectricityMeteringPointIdObjects", 96, 1, ID)
rule(A, "ElectricityRelatedStatusObjects", 96, 5, S((0, 5)))
rule(A, "ElectricityRelatedStatusObjects", 96, 10, S((0, 3)))
rule(A, "ListObjectsElectricity", 98)
TARIFF_C = S(82, (84, 89))                      # c1 of table 45 behind the quantities of 1..80
HARMONIC_C = S(90, 91, 92)
HARMONIC_E = S((0, 120), (124, 127))
rule(A, "ThresholdValues", TARIFF_C, S((31, 45)), R63, F99)
rule(A, "ThresholdValues", HARMONIC_C, S((31, 45)), HARMONIC_E, F99)
rule(A, "RegisterMonitorObjects", TARIFF_C, S(4, 5, 14, 15, 24, 25), R63, F99)
rule(A, "RegisterMonitorObjects", HARMONIC_C | S((100, 107)), S(4, 5, 14, 15, 24, 25), HARMONIC_E, F99)
# HCA, 6.4
A = (4,)
rule(A, "IdNumbersHca", 0, 0, ID)
rule(A, "BillingPeriodValuesResetCounterEntriesHca", 0, 1, S(1, 2, 10, 11))
rule(A, "GeneralPurposeObjectsHca", 0, 2, S((0, 3)))
rule(A, "GeneralPurposeObjectsHca", 0, 4, S((0, 6)))
rule(A, "GeneralPurposeObjectsHca", 0, 5, S(10, 11))
rule(A, "GeneralPurposeObjectsHca", 0, 8, S(0, 4, 6))
rule(A, "GeneralPurposeObjectsHca", 0, 9, S(1, 2, 3))
rule(A, "MeasuredValuesHcaConsumption", S(1, 2), S(0, 6), 0, 255)
rule(A, "MeasuredValuesHcaConsumption", S(1, 2), S((1, 5)), 0, F125)
rule(A, "MeasuredValuesHcaTemperature", S((3, 7)), S(0, 4, 5, 6), 255, 255)
rule(A, "ErrorRegisterObjectsHca", 97, 97)
rule(A, "ListObjectsHca", 98)
rule(A, "DataProfileObjectsHca", 99, 1)
# thermal energy, 6.5
A = (5, 6)
rule(A, "IdNumbersThermal", 0, 0, ID)
rule(A, "BillingPeriodValuesResetCounterEntriesThermal", 0, 1, S(1, 2, 10, 11))
rule(A, "GeneralPurposeObjectsThermal", 0, 2, S((0, 4), (10, 13)))
rule(A, "GeneralPurposeObjectsThermal", 0, 4, S(1, 2, 3))
rule(A, "GeneralPurposeObjectsThermal", 0, 5, S((1, 9), (21, 24)))
rule(A, "GeneralPurposeObjectsThermal", 0, 8, S((0, 7), (11, 14), (21, 25), (31, 34)))
rule(A, "GeneralPurposeObjectsThermal", 0, 9, S(1, 2, 3))
rule(A, "MeasuredValuesThermalConsumption", S((1, 7)), S(0, 1, 2, 3, 7), S((0, 9)), 255)
rule(A, "MeasuredValuesThermalConsumption", S((1, 7)), S(3, 8, 9), S((0, 9)), F125)
rule(A, "MeasuredValuesThermalConsumption", S((1, 7)), S(1, 2, 4, 5, (12, 15)), S((0, 9)), S((0, 125)))
rule(A, "MeasuredValuesThermalConsumption", S((1, 7)), 6, 255, 255)
rule(A, "MeasuredValuesThermalEnergy", S((1, 7)), S(5, 15), S((0, 9)), F125)
rule(A, "MeasuredValuesThermalEnergy", S(8, 9), S(1, 4, 5, (12, 15)), S((0, 9)), F125)
rule(A, "MeasuredValuesThermalEnergy", S((10, 13)), 0, S((0, 9)), 255)
rule(A, "MeasuredValuesThermalEnergy", S((10, 13)), S(4, 5, 14, 15), S((0, 9)), S((0, 99), (101, 125)))
rule(A, "MeasuredValuesThermalEnergy", S((10, 13)), S(6, 7, 10, 11), S((0, 9)), 255)
rule(A, "MeasuredValuesThermalEnergy", S((1, 13)), S((20, 25)), S((0, 9)), 255)
rule(A, "ErrorRegisterObjectsThermal", 97, 97, S(0, 1, 2))
rule(A, "ListObjectsThermal", 98)
rule(A, "DataProfileObjectsThermal", 99, S(1, 2), S(1, 2, 3), 255)
rule(A, "DataProfileObjectsThermal", 99, 3, 1, 255)
rule(A, "DataProfileObjectsThermal", 99, 99, f=255)
# gas, 6.6
A = (7,)
GAS_C = S((1, 8), (11, 16), (21, 26), (31, 35), (61, 65))
rule(A, "IdNumbersGas", 0, 0, ID)
rule(A, "BillingPeriodValuesResetCounterEntriesGas", 0, 1)
rule(A, "GeneralPurposeObjectsGas", 0, S(2, 3, 4, (6, 15)))
rule(A, "InternalOperatingStatusObjectsGas", 96, 5, S((0, 9)))
rule(A, "MeasuredValuesGasIndexesAndIndexDifferences", GAS_C, S((24, 26), (42, 44), (63, 65), (81, 83)), R63, S((0, 99), (101, 126)))
rule(A, "MeasuredValuesGasIndexesAndIndexDifferences", GAS_C, S((6, 23), (27, 32), (45, 50), (66, 71), (84, 89)), R63, 255)
rule(A, "MeasuredValuesGasIndexesAndIndexDifferences", GAS_C, S((33, 41), (52, 62), (72, 80), (90, 98)), R63, F125 | S(126))
rule(A, "MeasuredValuesGasFlowRate", 43, S(0, 1, 2, 13, (15, 30), (35, 50), (55, 70)), 0, 255)
rule(A, "MeasuredValuesGasFlowRate", 43, S((31, 34), (51, 54)), 0, F125 | S(126))
rule(A, "MeasuredValuesGasProcessValues", S(41, 42, (44, 49)), S(0, 2, 3, 10, 11, 13, (15, 91)), 0, 255)
rule(A, "ConversionRelatedFactorsAndCoefficientsGas", S((51, 55)), S(0, 2, 3, 10, 11), S(0, 1, (11, 28)), 255)
rule(A, "CalculationMethodsGas", S((51, 55)), 12, S((0, 19)), 255)
rule(A, "NaturalGasAnalysis", 70, S(8, 9), 0, 255)
rule(A, "NaturalGasAnalysis", 70, S((10, 20), (60, 84)), S(0, 1, (11, 28)), 255)
rule(A, "ListObjectsGas", 98)
# water, 6.7
A = (8, 9)
rule(A, "IdNumbersWater", 0, 0, ID)
rule(A, "BillingPeriodValuesResetCounterEntriesWater", 0, 1, S(1, 2, 10, 11, 12))
rule(A, "GeneralPurposeObjectsWater", 0, 2, S(0, 3))
rule(A, "GeneralPurposeObjectsWater", 0, S(5, 7), 1)
rule(A, "GeneralPurposeObjectsWater", 0, 8, S(1, 6))
rule(A, "GeneralPurposeObjectsWater", 0, 9, S(1, 2, 3))
for c, n in ((S(1), "Consumption"), (S(2, 3), "MonitoringValues")):
    rule(A, "MeasuredValuesWater" + n, c, S((0, 3), 6), S((0, 12)), 255)
    rule(A, "MeasuredValuesWater" + n, c, S((1, 5)), S((0, 12)), S((0, 99), (101, 125)))
rule(A, "ErrorRegisterObjectsWater", 97, 97)
rule(A, "ListObjectsWater", 98)
rule(A, "DataProfileObjectsWater", 99, 1)

MEDIA = {0: m.Abstract, 1: m.Electricity, 4: m.Hca, 5: m.Thermal, 6: m.Thermal, 7: m.Gas, 8: m.Water, 9: m.Water}
BY_A = {a: [r for r in RULES if a in r[0]] for a in MEDIA}


def ln_of(v):
    return cst.LogicalName(bytearray(v))


def expected(v):
    """names of groups that may be given to the logical name"""
    if v[0] not in MEDIA:
        return {"Other"}
    hit = {r[1] for r in BY_A[v[0]] if all(x in s for x, s in zip(v[1:], r[2:]))}
    if v[0] == 1 and v[3] in (31, 35, 39) and v[2] in range(100, 108):
        hit |= {"RegisterMonitorObjects", "Electricity"}        # table 45 is ambiguous here
    return hit or {MEDIA[v[0]].__name__}


def judge(ctx, v):
    g = col.get_relation_group(ln_of(v))
    exp = expected(v)
    if type(g).__name__ not in exp:
        ctx.fail(F"group of {'.'.join(map(str, v))} is {type(g).__name__}, expected {sorted(exp)}")
    return exp


def edges(s):
    ret = set()
    for x in s:
        for y in (x - 1, x, x + 1):
            if 0 <= y <= 255 and (y == x or y not in s):
                ret.add(y)
    return sorted(ret)


def group(ctx, case):
    hits = 0
    for v in case:
        exp = judge(ctx, v)
        g = col.get_relation_group(ln_of(v))
        med = col.get_media_id(ln_of(v))
        if v[0] in MEDIA:
            ctx.check(isinstance(g, MEDIA[v[0]]), "group belongs to the medium")
            hits += exp != {MEDIA[v[0]].__name__}
        ctx.check(g == col.get_relation_group(ln_of(list(v))), "same group for an equal name")
        ctx.eq(hash(g), hash(col.get_relation_group(ln_of(v))), "same hash for an equal name")
        ctx.eq(med == v[0], True, "medium is equal to value of group A")
        ctx.eq(bool(str(g)) and bool(str(med)), True, "group and medium have a text")
    ctx.nt(hits > 0)
    ctx.label("all listed", hits == len(case))


@st.composite
def near_rule(draw):
    r = RULES[draw(st.integers(0, len(RULES) - 1))]
    v = [draw(st.sampled_from(r[0]))]
    for s in r[2:]:
        how = draw(st.integers(0, 9))
        if len(s) == 256:
            v.append(draw(st.integers(0, 255)))
        elif how < 8:
            v.append(draw(st.sampled_from(sorted(s))))
        elif how == 8:
            v.append(draw(st.sampled_from(edges(s))))
        else:
            v.append(draw(st.integers(0, 255)))
    return v


random_ln = st.tuples(st.sampled_from([0, 1, 4, 5, 6, 7, 8, 9]) | st.integers(0, 255), *[st.integers(0, 255)] * 5).map(list)


def axes():
    """every rule: each value of each group, the other groups inside of the rule"""
    for r in RULES:
        ordered = [sorted(s) for s in r[2:]]
        for pick in (0, -1):
            base = [r[0][pick]] + [o[pick] for o in ordered]
            if len(r[2]) == 256:
                base[1] = 7
            for i in range(1, 6):
                if i == 1 and len(r[2]) == 256:
                    continue
                for start in range(0, 256, 64):
                    yield [base[:i] + [x] + base[i + 1:] for x in range(start, start + 64)]


def sweep(ctx, case):
    for v in case:
        judge(ctx, v)
    ctx.nt(len(expected(case[0])) > 0)


def other():
    """media that are not described"""
    for a in range(256):
        for c, d in ((0, 0), (1, 0), (96, 1)):
            yield [[a, 0, c, d, 0, 255]]


def medium(ctx, case):
    a, b = case
    x, y = m.MediaId.from_int(a), m.MediaId.from_int(b)
    same = {5: 6, 8: 9}
    ctx.nt(a != b)
    ctx.eq(x == a, True, "medium is equal to its value")
    ctx.eq(x == b, same.get(a, a) == same.get(b, b), "medium is equal only to its values")
    ctx.eq(x == y, same.get(a, a) == same.get(b, b), "equal media have equal values")
    if a in MEDIA:
        ctx.check(type(x) is MEDIA[a], "class of the medium")
    if x == y:
        ctx.eq(hash(x), hash(y), "equal media have equal hashes")
    ctx.eq(col.get_media_id(ln_of([a, 0, 0, 0, 0, 0])) == b, x == b, "medium of a logical name")


# names

def load_english():
    before = settings.get_current_language()
    name = rel.__name__ + "_english"
    spec = importlib.util.spec_from_file_location(name, rel.__file__)
    mod = importlib.util.module_from_spec(spec)
    settings.set_current_language("English")
    try:
        spec.loader.exec_module(mod)
    finally:
        settings.set_current_language(before.value)
    return mod


QUANTITY = ("ACTIVE_POWER_PLUS", "ACTIVE_POWER_MINUS", "REACTIVE_POWER_PLUS", "REACTIVE_POWER_MINUS", "REACTIVE_POWER_QI", "REACTIVE_POWER_QII",
            "REACTIVE_POWER_QIII", "REACTIVE_POWER_QIV", "APPARENT_POWER_PLUS", "APPARENT_POWER_MINUS", "CURRENT", "VOLTAGE", "POWER_FACTOR",
            "SUPPLY_FREQUENCY", "ACTIVE_POWER_ABS_PLUS", "ACTIVE_POWER_ABS_MINUS", "ACTIVE_POWER_QI", "ACTIVE_POWER_QII", "ACTIVE_POWER_QIII",
            "ACTIVE_POWER_QIV")
"""DLMS UA 1000-1 Table 65, C 1..20, the phases repeat it every 20"""
PROCESSING = {
    0: "BILLING_PERIOD_AVERAGE_SINCE_LAST_RESET", 1: "CUMULATIVE_MINIMUM_1", 2: "CUMULATIVE_MAXIMUM_1", 3: "MINIMUM_1", 4: "CURRENT_AVERAGE_1",
    5: "LAST_AVERAGE_1", 6: "MAXIMUM_1", 7: "INSTANTANEOUS_VALUE", 8: "TIME_INTEGRAL_1", 9: "TIME_INTEGRAL_2", 10: "TIME_INTEGRAL_3",
    11: "CUMULATIVE_MINIMUM_2", 12: "CUMULATIVE_MAXIMUM_2", 13: "MINIMUM_2", 14: "CURRENT_AVERAGE_2", 15: "LAST_AVERAGE_2", 16: "MAXIMUM_2",
    17: "TIME_INTEGRAL_7", 18: "TIME_INTEGRAL_8", 19: "TIME_INTEGRAL_9", 20: "TIME_INTEGRAL_10", 21: "CUMULATIVE_MINIMUM_3", 22: "CUMULATIVE_MAXIMUM_3",
    23: "MINIMUM_3", 24: "CURRENT_AVERAGE_3", 25: "LAST_AVERAGE_3", 26: "MAXIMUM_3", 27: "CURRENT_AVERAGE_5", 28: "CURRENT_AVERAGE_6",
    29: "TIME_INTEGRAL_5", 30: "TIME_INTEGRAL_6", 31: "UNDER_LIMIT_THRESHOLD", 32: "UNDER_LIMIT_OCCURRENCE_COUNTER", 33: "UNDER_LIMIT_DURATION",
    34: "UNDER_LIMIT_MAGNITUDE", 35: "OVER_LIMIT_THRESHOLD", 36: "OVER_LIMIT_OCCURRENCE_COUNTER", 37: "OVER_LIMIT_DURATION",
    38: "OVER_LIMIT_MAGNITUDE", 39: "MISSING_THRESHOLD", 40: "MISSING_OCCURRENCE_COUNTER", 41: "MISSING_DURATION", 42: "MISSING_MAGNITUDE",
    43: "TIME_THRESHOLD_FOR_UNDER_LIMIT", 44: "TIME_THRESHOLD_FOR_OVER_LIMIT", 45: "TIME_THRESHOLD_FOR_MISSING_MAGNITUDE", 46: "CONTRACTED_VALUE",
    49: "AVERAGE_VALUE_FOR_RECORDING_INTERVAL_1", 50: "AVERAGE_VALUE_FOR_RECORDING_INTERVAL_2", 51: "MINIMUM_FOR_RECORDING_INTERVAL_1",
    52: "MINIMUM_FOR_RECORDING_INTERVAL_2", 53: "MAXIMUM_FOR_RECORDING_INTERVAL_1", 54: "MAXIMUM_FOR_RECORDING_INTERVAL_2", 55: "TEST_AVERAGE",
    56: "CURRENT_AVERAGE_4_FOR_HARMONICS_MEASUREMENT", 58: "TIME_INTEGRAL_4"}
ANGLES = ("U_L1", "U_L2", "U_L3", None, "I_L1", "I_L2", "I_L3", "I_L0")


def name(ctx, case):
    lang, lns = case
    mod = rel if lang == 0 else ENGLISH
    rn = mod.rn
    known = 0
    for v in lns:
        t = mod.get_name(ln_of(v))
        ctx.check(isinstance(t, str) and t != "", F"name of {v} is a text")
        ctx.eq(mod.get_name(ln_of(list(v))), t, "the name is stable")
        known += t != rn.UNKNOWN
        a, b, c, d, e, f = v
        if a == 1 and 1 <= c <= 80:
            q = getattr(rn, QUANTITY[(c - 1) % 20])
            ctx.check(q in t, F"name of {v} names its quantity: {t!r}")
            if c > 20:
                ctx.check((rn.L1, rn.L2, rn.L3)[(c - 21) // 20] in t, F"name of {v} names its phase: {t!r}")
            if d in PROCESSING:
                if not (c in (11, 12) and d == 7):
                    ctx.check(getattr(rn, PROCESSING[d]) in t, F"name of {v} names its processing: {t!r}")
            if 1 <= e <= 63 and c not in (11, 12):
                ctx.check(t.endswith(F"{rn.RATE} {e}"), F"name of {v} names its rate: {t!r}")
            if 1 <= e <= 120 and c in (11, 12) and d != 134:
                ctx.check(t.endswith(F"{rn.HARMONIC} {e}"), F"name of {v} names its harmonic: {t!r}")
            if c not in (11, 12) or d != 134:
                ctx.eq(F"{rn.CHANNEL} {b} " in t or F"{rn.CHANNEL} {b}{q}" in t or F"{rn.CHANNEL} {b}" in t, 1 <= b <= 64, F"name of {v} names its channel: {t!r}")
        if a == 1 and c == 81 and d == 7 and e < 78 and e % 10 not in (3, 8, 9) and e // 10 != 3:
            ctx.check(F"{getattr(rn, ANGLES[e % 10])} {rn.TO} {getattr(rn, ANGLES[e // 10])}" in t, F"name of {v} names its angle: {t!r}")
        if a > 1 and a != 128:
            ctx.eq(t, rn.UNKNOWN, "name of an object of other media")
    ctx.nt(known > 0)
    ctx.label("english", lang == 1)
    ctx.label("unknown", known < len(lns))


ENGLISH = load_english()
name_ln = st.sampled_from([0, 1, 2, 3, 4]).flatmap({
    0: near_rule(),
    1: st.tuples(st.just(1), st.integers(0, 255), st.integers(0, 150), st.integers(0, 150), st.integers(0, 255), st.integers(0, 255)).map(list),
    2: st.tuples(st.just(1), st.integers(0, 70), st.integers(1, 81), st.integers(0, 60), st.integers(0, 130), st.just(255)).map(list),
    3: st.tuples(st.just(0), st.integers(0, 255), st.sampled_from([0, 1, 2, 10, 15, 16, 17, 21, 22, 25, 40, 42, 43, 44, 94, 96, 97, 99, 128]),
                 st.integers(0, 15) | st.sampled_from([20, 51, 97, 98]), st.integers(0, 40) | st.integers(0, 255), st.just(255)).map(list),
    4: random_ln}.__getitem__)


def names():
    """every C and D of electricity and every abstract object with B 0, 1 and some E, both languages"""
    for lang in (0, 1):
        for c in chain(range(0, 151), (200, 255)):
            for d in chain(range(0, 150), (200, 255)):
                yield [lang, [[1, b, c, d, e, 255] for b, e in ((0, 0), (1, 1))]]
        for c in chain(range(0, 130), (255,)):
            for d in chain(range(0, 22), (51, 97, 98, 99, 100, 101)):
                yield [lang, [[0, b, c, d, e, 255] for b, e in chain(((0, i) for i in range(10)), ((1, 0), (1, 1), (1, 128)))]]
        for e in range(256):
            yield [lang, [[1, 0, 81, 7, e, 255]]]


# single names

def rows():
    ret = []
    for line in TABLE.strip().splitlines():
        key, parts = line.split(" ", 1)
        ret.append((tuple(None if k in "be" else int(k) for k in key.split(".")), parts))
    return ret


ROWS = rows()


def general(v):
    """is in the part of electricity that is named by its value groups, see name"""
    a, b, c, d, e, f = v
    return a == 1 and (1 <= c <= 81 or c in (88, 89, 91, 124, 125, 126, 128, 129, 130, 131, 133, 137) or (c, d) == (147, 133))


def channel(rn, b):
    if b == 0:
        return ""
    return F", {rn.CHANNEL if b <= 64 else rn.UTILITY_SPECIFIC if b <= 127 else rn.MANUFACTURER_SPECIFIC if b <= 199 else rn.RESERVED} {b}"


def instance(rn, e):
    return "" if e == 0 else F", {rn.INSTANCE if e <= 127 else rn.MANUFACTURER_SPECIFIC} {e}"


def table_name(mod, v):
    rn = mod.rn
    for key, parts in ROWS:
        if all(k is None or k == x for k, x in zip(key, v)):
            words = {"B": channel(rn, v[1]), "E": instance(rn, v[4]), "e1": v[4] + 1}
            for w in re.findall(r"{(\w+)}", parts):
                if w.startswith("class_"):
                    words[w] = str(getattr(cosemClassID, w[6:]))
                elif w not in words:
                    words[w] = getattr(rn, w)
            return parts.format(**words)
    return None if general(v) else rn.UNKNOWN


def single(ctx, case):
    lang, lns = case
    mod = rel if lang == 0 else ENGLISH
    hits = 0
    for v in lns:
        want = table_name(mod, v)
        if want is not None:
            ctx.eq(mod.get_name(ln_of(v)), want, F"name of {v}")
            hits += want != mod.rn.UNKNOWN
    ctx.nt(hits > 0)
    ctx.label("english", lang == 1)


def singles():
    """every row: its borders of B and E, and every value group moved by one"""
    for lang in (0, 1):
        for key, _ in ROWS:
            bs = (key[1],) if key[1] is not None else (0, 1, 2, 63, 64, 65, 127, 128, 199, 200, 255)
            es = (key[4],) if key[4] is not None else (0, 1, 2, 9, 126, 127, 128, 254, 255)
            full = [[key[0], b, key[2], key[3], e, 255] for b in bs for e in es]
            near = []
            for i in range(5):
                for step in (-1, 1):
                    v = full[0][:i] + [(full[0][i] + step) % 256] + full[0][i + 1:]
                    near.append(v)
            yield [lang, full]
            yield [lang, near]
        for a in range(256):
            yield [lang, [[a, 0, 0, 2, 0, 255], [a, 0, 42, 0, 0, 255], [a, 0, 9, 0, 0, 0]]]


PROP = Prop("C28", rule="at least one logical name of the case is listed in the tables (has a group of its own or a known name)", facets=[
    Facet("group", st.lists(st.one_of(near_rule(), near_rule(), random_ln), min_size=1, max_size=30), group, quick=400, thorough=20000),
    Facet("group_axes", None, sweep, exhaustive=axes),
    Facet("group_other", None, sweep, exhaustive=other),
    Facet("medium", st.tuples(st.integers(0, 15) | st.integers(0, 255), st.integers(0, 15) | st.integers(0, 255)).map(list), medium, quick=400, thorough=5000),
    Facet("name", st.tuples(st.integers(0, 1), st.lists(name_ln, min_size=1, max_size=20)).map(list), name, quick=500, thorough=20000),
    Facet("name_all", None, name, exhaustive=names),
    Facet("single", None, single, exhaustive=singles),
], assumptions=["tables of groups follow DLMS UA 1000-1 Ed 14, 6.2-6.7; where two tables list one logical name either group is accepted"])
