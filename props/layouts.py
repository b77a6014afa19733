"""Golden table: the wire layout of every plain command, from the Z-Wave command class
specifications (bN bit field, rN reserved bits, uN big endian unsigned, ip/dsk 16 bytes, tail:
everything up to the end). Commands with a structure of their own are spelled out in the
harnesses."""

LAYOUTS = [
    (0x2001, "Basic.Set",
     [("value", "u8")]),
    (0x2002, "Basic.Get",
     []),
    (0x2003, "Basic.Report",
     [("value", "u8")]),
    (0x2201, "ApplicationStatus.ApplicationBusy",
     [("status", "u8"), ("waitTime", "u8")]),
    (0x2303, "Zip.ZipKeepAlive",
     [("ackRequest", "b1"), ("ackResponse", "b1"), ("_", "r6")]),
    (0x2501, "SwitchBinary.Set",
     [("value", "u8")]),
    (0x2502, "SwitchBinary.Get",
     []),
    (0x2503, "SwitchBinary.Report",
     [("value", "u8")]),
    (0x3101, "SensorMultilevel.SupportedGetSensor",
     []),
    (0x3103, "SensorMultilevel.SupportedGetScale",
     [("sensorType", "u8")]),
    (0x3104, "SensorMultilevel.Get",
     [("sensorType", "u8"), ("-", "r3"), ("scale", "b2"), ("-", "r3")]),
    (0x3106, "SensorMultilevel.SupportedScaleReport",
     [("sensorType", "u8"), ("-", "r4"), ("scaleBitMask", "b4")]),
    (0x3201, "Meter.Get",
     [("rateType", "b2"), ("scale", "b3"), ("-", "r3"), ("scale2", "u8")]),
    (0x3203, "Meter.SupportedGet",
     []),
    (0x3204, "Meter.SupportedReport",
     [("meterReset", "b1"), ("rateType", "b2"), ("meterType", "b5"), ("moreScaleTypes", "b1"),
     ("scaleSupported", "b7"), ("nbrScaleSupportedBytesToFollow", "u8"), ("scaleSupportedByteN", "tail")]),
    (0x3205, "Meter.Reset",
     []),
    (0x3401, "NetworkManagementInclusion.NodeAdd",
     [("seqNo", "u8"), ("-", "r8"), ("mode", "u8"), ("txOptions", "u8")]),
    (0x3403, "NetworkManagementInclusion.NodeRemove",
     [("seqNo", "u8"), ("-", "r8"), ("mode", "u8")]),
    (0x3404, "NetworkManagementInclusion.NodeRemoveStatus",
     [("seqNo", "u8"), ("status", "u8"), ("nodeID", "u8")]),
    (0x3407, "NetworkManagementInclusion.FailedNodeRemove",
     [("seqNo", "u8"), ("nodeID", "u8")]),
    (0x3408, "NetworkManagementInclusion.FailedNodeRemoveStatus",
     [("seqNo", "u8"), ("status", "u8"), ("nodeID", "u8")]),
    (0x3409, "NetworkManagementInclusion.FailedNodeReplace",
     [("seqNo", "u8"), ("nodeID", "u8"), ("txOptions", "u8"), ("mode", "u8")]),
    (0x340A, "NetworkManagementInclusion.FailedNodeReplaceStatus",
     [("seqNo", "u8"), ("status", "u8"), ("nodeID", "u8")]),
    (0x340B, "NetworkManagementInclusion.NodeNeightborUpdateRequest",
     [("seqNo", "u8"), ("nodeID", "u8")]),
    (0x340C, "NetworkManagementInclusion.NodeNeightborUpdateStatus",
     [("seqNo", "u8"), ("status", "u8")]),
    (0x340D, "NetworkManagementInclusion.ReturnRouteAssign",
     [("seqNo", "u8"), ("sourceNodeID", "u8"), ("destinationNodeID", "u8")]),
    (0x340E, "NetworkManagementInclusion.ReturnRouteAssignComplete",
     [("seqNo", "u8"), ("status", "u8")]),
    (0x340F, "NetworkManagementInclusion.ReturnRouteDelete",
     [("seqNo", "u8"), ("nodeID", "u8")]),
    (0x3410, "NetworkManagementInclusion.ReturnRouteDeleteComplete",
     [("seqNo", "u8"), ("status", "u8")]),
    (0x3411, "NetworkManagementInclusion.NodeAddKeysReport",
     [("seqNo", "u8"), ("-", "r7"), ("requestCSA", "b1"), ("requestedKeys", "u8")]),
    (0x3412, "NetworkManagementInclusion.NodeAddKeysSet",
     [("seqNo", "u8"), ("-", "r6"), ("grantCSA", "b1"), ("accept", "b1"), ("grantedKeys", "u8")]),
    (0x3413, "NetworkManagementInclusion.NodeAddDSKReport",
     [("seqNo", "u8"), ("-", "r4"), ("inputDSKLength", "b4"), ("dsk", "dsk")]),
    (0x3414, "NetworkManagementInclusion.NodeAddDSKSet",
     [("seqNo", "u8"), ("accept", "b1"), ("-", "r3"), ("inputDSKLength", "b4"), ("dsk", "dsk")]),
    (0x3415, "NetworkManagementInclusion.SmartStartJoinStartedReport",
     [("seqNo", "u8"), ("dsk", "dsk")]),
    (0x3419, "NetworkManagementInclusion.IncludedNIFReport",
     [("seqNo", "u8"), ("dsk", "dsk")]),
    (0x5201, "NetworkManagementProxy.NodeListGet",
     [("seqNo", "u8")]),
    (0x5203, "NetworkManagementProxy.NodeInfoCachedGet",
     [("seqNo", "u8"), ("-", "r4"), ("maxAge", "b4"), ("nodeID", "u8")]),
    (0x5204, "NetworkManagementProxy.NodeInfoCachedReport",
     [("seqNo", "u8"), ("status", "b4"), ("age", "b4"), ("listening", "b1"), ("zwaveProtocolSpecific",
     "r7"), ("optFunc", "b1"), ("zwaveProtocolSpecific", "r7"), ("-", "r8"), ("basicDeviceClass", "u8"),
     ("genericDeviceClass", "u8"), ("specificDeviceClass", "u8"), ("commandClass", "tail")]),
    (0x5205, "NetworkManagementProxy.MultiChannelEndPointGet",
     [("seqNo", "u8"), ("nodeID", "u8")]),
    (0x5206, "NetworkManagementProxy.MultiChannelEndPointReport",
     [("seqNo", "u8"), ("nodeID", "u8"), ("-", "r8"), ("-", "r1"), ("individualEndPoints", "b7"), ("-",
     "r1"), ("aggregatedEndPoints", "b7")]),
    (0x5207, "NetworkManagementProxy.MultiChannelCapabilityGet",
     [("seqNo", "u8"), ("nodeID", "u8"), ("-", "r1"), ("endPoint", "b7")]),
    (0x5208, "NetworkManagementProxy.MultiChannelCapabilityReport",
     [("seqNo", "u8"), ("nodeID", "u8"), ("commandClassLength", "u8"), ("-", "r1"), ("endPoint", "b7"),
     ("genericDeviceClass", "u8"), ("specificDeviceClass", "u8"), ("commandClass", "tail")]),
    (0x520B, "NetworkManagementProxy.FailedNodeListGet",
     [("seqNo", "u8")]),
    (0x5801, "ZipND.ZipNodeAdvertisement",
     [("-", "r5"), ("local", "b1"), ("validity", "b2"), ("nodeId", "u8"), ("ipv6", "ip"), ("homeId",
     "u32")]),
    (0x5804, "ZipND.ZipInvNodeSolicitation",
     [("-", "r4"), ("local", "b1"), ("-", "r3"), ("nodeId", "u8")]),
    (0x5901, "AssociationGrpInfo.GroupNameGet",
     [("groupingIdentifier", "u8")]),
    (0x5903, "AssociationGrpInfo.GroupInfoGet",
     [("refreshCache", "b1"), ("listMode", "b1"), ("-", "r6"), ("groupingIdentifier", "u8")]),
    (0x5905, "AssociationGrpInfo.GroupCommandListGet",
     [("allowCache", "b1"), ("-", "r7"), ("groupingIdentifier", "u8")]),
    (0x5E01, "ZwavePlusInfo.Get",
     []),
    (0x5E02, "ZwavePlusInfo.Report",
     [("zwavePlusVersion", "u8"), ("roleType", "u8"), ("nodeType", "u8"), ("installerIconType", "u16"),
     ("userIconType", "u16")]),
    (0x5F01, "ZipGateway.GatewayModeSet",
     [("mode", "u8")]),
    (0x5F02, "ZipGateway.GatewayModeGet",
     []),
    (0x5F03, "ZipGateway.GatewayModeReport",
     [("mode", "u8")]),
    (0x5F04, "ZipGateway.GatewayPeerSet",
     [("peerProfile", "u8"), ("ipv6", "ip"), ("port", "u16"), ("-", "r2"), ("peerNameLength", "b6")]),
    (0x5F08, "ZipGateway.UnsolicitedDestinationSet",
     [("unsolicitedIPv6Destination", "ip"), ("port", "u16")]),
    (0x5F0B, "ZipGateway.ApplicationNodeInfoSet",
     [("commandClasses", "tail")]),
    (0x6901, "Mailbox.ConfigurationGet",
     []),
    (0x6902, "Mailbox.ConfigurationSet",
     [("-", "r5"), ("mode", "b3"), ("forwardingDestinationIPv6Address", "ip"), ("udpPortNumber", "u16")]),
    (0x6903, "Mailbox.ConfigurationReport",
     [("-", "r3"), ("supportedModes", "b2"), ("mode", "b3"), ("mailboxCapacity", "u16"),
     ("forwardingDestinationIPv6Address", "ip"), ("udpPortNumber", "u16")]),
    (0x6904, "Mailbox.Queue",
     [("-", "r4"), ("last", "b1"), ("operation", "b3"), ("queueHandle", "u8"), ("mailboxEntry", "tail")]),
    (0x6905, "Mailbox.WakeupNotification",
     [("queueHandle", "u8")]),
    (0x6907, "Mailbox.QueueFlush",
     [("queueHandle", "u8")]),
    (0x6C02, "Supervision.Report",
     [("moreStatusUpdates", "b1"), ("wakeUpRequest", "b1"), ("sessionID", "b6"), ("status", "u8"),
     ("duration", "u8")]),
    (0x7005, "Configuration.Get",
     [("parameterNumber", "u8")]),
    (0x7008, "Configuration.BulkGet",
     [("parameterOffset", "u16"), ("numberOfParameters", "u8")]),
    (0x7009, "Configuration.BulkReport",
     [("parameterOffset", "u16"), ("numberOfParameters", "u8"), ("reportsToFollow", "u8"), ("default",
     "b1"), ("handshake", "b1"), ("-", "r3"), ("size", "b3"), ("parameter", "tail")]),
    (0x7204, "ManufacturerSpecific.Get",
     []),
    (0x7205, "ManufacturerSpecific.Report",
     [("manufacturerID", "u16"), ("productTypeID", "u16"), ("productID", "u16")]),
    (0x7803, "NodeProvisioning.ListIterationGet",
     [("seqNo", "u8"), ("remainingCounter", "u8")]),
    (0x8002, "Battery.Get",
     []),
    (0x8003, "Battery.Report",
     [("batteryLevel", "u8")]),
    (0x8502, "Association.Get",
     [("groupingIdentifier", "u8")]),
    (0x8505, "Association.GroupingsGet",
     []),
    (0x8506, "Association.GroupingsReport",
     [("supportedGroupings", "u8")]),
    (0x8611, "Version.VersionGet",
     []),
    (0x8612, "Version.VersionReport",
     [("zwaveLibraryType", "u8"), ("zwaveProtocolVersion", "u8"), ("zwaveProtocolSubVersion", "u8"),
     ("applicationVersion", "u8"), ("applicationSubVersion", "u8")]),
    (0x8613, "Version.VersionCommandClassGet",
     [("requestedCommandClass", "u8")]),
    (0x8614, "Version.VersionCommandClassReport",
     [("requestedCommandClass", "u8"), ("commandClassVersion", "u8")]),
    (0x8701, "Indicator.Set",
     [("value", "u8")]),
    (0x8702, "Indicator.Get",
     []),
    (0x8703, "Indicator.Report",
     [("value", "u8")]),
    (0x8E02, "MultiChannelAssociation.MultiChannelGet",
     [("groupingIdentifier", "u8")]),
]

RECEIVE_ONLY = set()

# named values, by their numbers in the specifications
ENUMS = {
    "pyzwave.adapter:TxOptions": {"NULL": 0, "TRANSMIT_OPTION_LOW_POWER": 2, "TRANSMIT_OPTION_EXPLORE": 32},
    "ApplicationStatus:Status": {"TRY_AGAIN_LATER": 0, "TRY_AGAIN_IN_WAIT_TIME_SECONDS": 1,
        "REQUEST_QUEUED_EXECUTED_LATER": 2},
    "Configuration:Size": {"SIZE_8_BIT": 1, "SIZE_16_BIT": 2, "SIZE_32_BIT": 4},
    "Mailbox:Mode": {"DISABLE_MAILBOX": 0, "ENABLE_MAILBOX_SERVICE": 1, "ENABLE_MAILBOX_PROXY_FORWARDING": 2},
    "Mailbox:Queue.Operation": {"PUSH": 0, "POP": 1, "WAITING": 2, "PING": 3, "ACK": 4, "NACK": 5, "QUEUE_FULL": 6},
    "Meter:MeterType": {"ELECTRIC_METER": 1, "GAS_METER": 2, "WATER_METER": 3, "HEATING_METER": 4,
        "COOLING_METER": 5},
    "Meter:ElectricMeterScale": {"KWH": 0, "KVAH": 1, "W": 2, "PULSE_COUNT": 3, "V": 4, "A": 5, "POWER_FACTOR": 6,
        "MST": 7},
    "Meter:RateType": {"UNSPECIFIED": 0, "IMPORT": 1, "EXPORT": 2, "BOTH_IMPORT_AND_EXPORT": 3},
    "NetworkManagementInclusion:FailedNodeRemoveStatus.Status": {"NOT_FOUND": 0, "DONE": 1, "REMOVE_FAIL": 2},
    "NetworkManagementInclusion:NodeAdd.Mode": {"ANY": 1, "STOP": 5, "ANY_S2": 7},
    "NetworkManagementInclusion:Keys": {"UNAUTHENTICATED_SECURITY_CLASS": 1, "AUTHENTICATED_SECURITY_CLASS": 2,
        "ACCESS_CONTROL_SECURITY_CLASS": 4, "SECURITY_0_NETWORK_KEY": 128},
    "NetworkManagementInclusion:NodeAddStatus.Status": {"NODE_FOUND": 2, "ADD_SLAVE": 3, "PROTOCOL_DONE": 5,
        "DONE": 6, "FAILED": 7, "SECURITY_FAILED": 9},
    "NetworkManagementInclusion:NodeRemove.Mode": {"ANY": 1, "STOP": 5},
    "NetworkManagementInclusion:NodeRemoveStatus.Status": {"DONE": 6, "FAILED": 7},
    "NetworkManagementProxy:NodeInfoCachedReport.Status": {"OK": 0, "NOT_RESPONDING": 1, "UNKNOWN": 2},
    "NodeProvisioning:MetadataExtensionType": {"PRODUCT_TYPE": 0, "PRODUCT_ID": 1,
        "MAX_INCLUSION_REQUEST_INTERVAL": 2, "UUID16": 3, "NAME": 50, "LOCATION": 51,
        "SMART_START_INCLUSION_SETTING": 52, "ADVANCED_JOINING": 53, "BOOTSTRAPPING_MODE": 54,
        "NETWORK_STATUS": 55},
    "SensorMultilevel:SensorType": {"TEMPERATURE": 1, "GENERAL_PURPOSE": 2, "LUMINANCE": 3, "POWER": 4,
        "HUMIDITY": 5, "VELOCITY": 6, "BAROMETRIC_PRESSURE": 9, "DEW_POINT": 11, "RAIN_RATE": 12, "WEIGHT": 14,
        "VOLTAGE": 15, "CO2": 17, "VOLUME": 19, "UV": 27, "LOUDNESS": 30, "MOISTURE": 31, "PM25": 35, "CO": 40},
    "Zip:IMEType": {"ROUTE_CHANGED": 0, "TRANSMISION_TIME": 1, "LAST_WORKING_ROUTE": 2, "RSSI": 3,
        "ACK_CHANNEL": 4, "TRANSMIT_CHANNEL": 5, "ROUTING_SCHEME": 6, "ROUTING_ATTEMPTS": 7, "LAST_FAILED_LINK": 8},
    "Zip:IMELastWorkingRoute.Speed": {"SPEED_9_6_KBIT_S": 1, "SPEED_40_KBIT_S": 2, "SPEED_100_KBIT_S": 3},
    "Zip:ZIPPacketOptionType": {"EXPECTED_DELAY": 1, "MAINTENANCE_GET": 2, "MAINTENANCE_REPORT": 3,
        "ENCAPSULATION_FORMAT_INFORMATION": 4, "ZWAVE_MULTICAST_ADDRESSING": 5},
}
