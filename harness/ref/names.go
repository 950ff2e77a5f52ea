package ref

// The names that BACnet gives to numbers, in lower case letters without anything between them.

var Units = map[uint32]string{
	0:   "squaremeters",
	1:   "squarefeet",
	2:   "milliamperes",
	3:   "amperes",
	4:   "ohms",
	5:   "volts",
	6:   "kilovolts",
	7:   "megavolts",
	8:   "voltamperes",
	9:   "kilovoltamperes",
	10:  "megavoltamperes",
	11:  "voltamperesreactive",
	12:  "kilovoltamperesreactive",
	13:  "megavoltamperesreactive",
	14:  "degreesphase",
	15:  "powerfactor",
	16:  "joules",
	17:  "kilojoules",
	18:  "watthours",
	19:  "kilowatthours",
	20:  "btus",
	21:  "therms",
	22:  "tonhours",
	23:  "joulesperkilogramdryair",
	24:  "btusperpounddryair",
	25:  "cyclesperhour",
	26:  "cyclesperminute",
	27:  "hertz",
	28:  "gramsofwaterperkilogramdryair",
	29:  "percentrelativehumidity",
	30:  "millimeters",
	31:  "meters",
	32:  "inches",
	33:  "feet",
	34:  "wattspersquarefoot",
	35:  "wattspersquaremeter",
	36:  "lumens",
	37:  "luxes",
	38:  "footcandles",
	39:  "kilograms",
	40:  "poundsmass",
	41:  "tons",
	42:  "kilogramspersecond",
	43:  "kilogramsperminute",
	44:  "kilogramsperhour",
	45:  "poundsmassperminute",
	46:  "poundsmassperhour",
	47:  "watts",
	48:  "kilowatts",
	49:  "megawatts",
	50:  "btusperhour",
	51:  "horsepower",
	52:  "tonsrefrigeration",
	53:  "pascals",
	54:  "kilopascals",
	55:  "bars",
	56:  "poundsforcepersquareinch",
	57:  "centimetersofwater",
	58:  "inchesofwater",
	59:  "millimetersofmercury",
	60:  "centimetersofmercury",
	61:  "inchesofmercury",
	62:  "degreescelsius",
	63:  "degreeskelvin",
	64:  "degreesfahrenheit",
	65:  "degreedayscelsius",
	66:  "degreedaysfahrenheit",
	67:  "years",
	68:  "months",
	69:  "weeks",
	70:  "days",
	71:  "hours",
	72:  "minutes",
	73:  "seconds",
	74:  "meterspersecond",
	75:  "kilometersperhour",
	76:  "feetpersecond",
	77:  "feetperminute",
	78:  "milesperhour",
	79:  "cubicfeet",
	80:  "cubicmeters",
	81:  "imperialgallons",
	82:  "liters",
	83:  "usgallons",
	84:  "cubicfeetperminute",
	85:  "cubicmeterspersecond",
	86:  "imperialgallonsperminute",
	87:  "literspersecond",
	88:  "litersperminute",
	89:  "usgallonsperminute",
	90:  "degreesangular",
	91:  "degreescelsiusperhour",
	92:  "degreescelsiusperminute",
	93:  "degreesfahrenheitperhour",
	94:  "degreesfahrenheitperminute",
	95:  "nounits",
	96:  "partspermillion",
	97:  "partsperbillion",
	98:  "percent",
	99:  "percentpersecond",
	100: "perminute",
	101: "persecond",
	102: "psiperdegreefahrenheit",
	103: "radians",
	104: "revolutionsperminute",
	115: "squareinches",
	116: "squarecentimeters",
	117: "btusperpound",
	118: "centimeters",
	119: "poundsmasspersecond",
	120: "deltadegreesfahrenheit",
	121: "deltadegreeskelvin",
	122: "kilohms",
	123: "megohms",
	124: "millivolts",
	125: "kilojoulesperkilogram",
	126: "megajoules",
	127: "joulesperdegreekelvin",
	128: "joulesperkilogramdegreekelvin",
	129: "kilohertz",
	130: "megahertz",
	131: "perhour",
	132: "milliwatts",
	133: "hectopascals",
	134: "millibars",
	135: "cubicmetersperhour",
	136: "litersperhour",
	137: "kwhourspersquaremeter",
	138: "kwhourspersquarefoot",
	139: "megajoulespersquaremeter",
	140: "megajoulespersquarefoot",
	141: "wattspersquaremeterdegreekelvin",
	142: "cubicfeetpersecond",
	143: "percentobscurationperfoot",
	144: "percentobscurationpermeter",
	145: "milliohms",
	146: "megawatthours",
	147: "kilobtus",
	148: "megabtus",
	149: "kilojoulesperkilogramdryair",
	150: "megajoulesperkilogramdryair",
	151: "kilojoulesperdegreekelvin",
	152: "megajoulesperdegreekelvin",
	153: "newton",
	154: "gramspersecond",
	155: "gramsperminute",
	156: "tonsperhour",
	157: "kilobtusperhour",
	158: "hundredthsseconds",
	159: "milliseconds",
	160: "newtonmeters",
	161: "millimeterspersecond",
	162: "millimetersperminute",
	163: "metersperminute",
	164: "metersperhour",
	165: "cubicmetersperminute",
	166: "meterspersecondpersecond",
	167: "amperespermeter",
	168: "amperespersquaremeter",
	169: "amperesquaremeters",
	170: "farads",
	171: "henrys",
	172: "ohmmeters",
	173: "siemens",
	174: "siemenspermeter",
	175: "teslas",
	176: "voltsperdegreekelvin",
	177: "voltspermeter",
	178: "webers",
	179: "candelas",
	180: "candelaspersquaremeter",
	181: "degreeskelvinperhour",
	182: "degreeskelvinperminute",
	183: "jouleseconds",
	184: "radianspersecond",
	185: "squaremeterspernewton",
	186: "kilogramspercubicmeter",
	187: "newtonseconds",
	188: "newtonspermeter",
	189: "wattspermeterperdegreekelvin",
	190: "microsiemens",
	191: "cubicfeetperhour",
	192: "usgallonsperhour",
	193: "kilometers",
	194: "micrometers",
	195: "grams",
	196: "milligrams",
	197: "milliliters",
	198: "milliliterspersecond",
	199: "decibels",
	200: "decibelsmillivolt",
	201: "decibelsvolt",
	202: "millisiemens",
	203: "watthoursreactive",
	204: "kilowatthoursreactive",
	205: "megawatthoursreactive",
	206: "millimetersofwater",
	207: "permille",
	208: "gramspergram",
	209: "kilogramsperkilogram",
	210: "gramsperkilogram",
	211: "milligramspergram",
	212: "milligramsperkilogram",
	213: "gramspermilliliter",
	214: "gramsperliter",
	215: "milligramsperliter",
	216: "microgramsperliter",
	217: "gramspercubicmeter",
	218: "milligramspercubicmeter",
	219: "microgramspercubicmeter",
	220: "nanogramspercubicmeter",
	221: "gramspercubiccentimeter",
	222: "becquerels",
	224: "megabecquerels",
	225: "gray",
	226: "milligray",
	227: "microgray",
	228: "sieverts",
	229: "millisieverts",
	230: "microsieverts",
	231: "microsievertsperhour",
	232: "decibelsa",
	233: "nephelometricturbidityunit",
	234: "ph",
	235: "gramspersquaremeter",
	236: "minutesperdegreekelvin",
}

var ErrorCodes = map[uint32]string{
	0:   "other",
	1:   "authenticationfailed",
	2:   "configurationinprogress",
	3:   "devicebusy",
	4:   "dynamiccreationnotsupported",
	5:   "fileaccessdenied",
	6:   "incompatiblesecuritylevels",
	7:   "inconsistentparameters",
	8:   "inconsistentselectioncriterion",
	9:   "invaliddatatype",
	10:  "invalidfileaccessmethod",
	11:  "invalidfilestartposition",
	12:  "invalidoperatorname",
	13:  "invalidparameterdatatype",
	14:  "invalidtimestamp",
	15:  "keygenerationerror",
	16:  "missingrequiredparameter",
	17:  "noobjectsofspecifiedtype",
	18:  "nospaceforobject",
	19:  "nospacetoaddlistelement",
	20:  "nospacetowriteproperty",
	21:  "novtsessionsavailable",
	22:  "propertyisnotalist",
	23:  "objectdeletionnotpermitted",
	24:  "objectidentifieralreadyexists",
	25:  "operationalproblem",
	26:  "passwordfailure",
	27:  "readaccessdenied",
	28:  "securitynotsupported",
	29:  "servicerequestdenied",
	30:  "timeout",
	31:  "unknownobject",
	32:  "unknownproperty",
	34:  "unknownvtclass",
	35:  "unknownvtsession",
	36:  "unsupportedobjecttype",
	37:  "valueoutofrange",
	38:  "vtsessionalreadyclosed",
	39:  "vtsessionterminationfailure",
	40:  "writeaccessdenied",
	41:  "charactersetnotsupported",
	42:  "invalidarrayindex",
	43:  "covsubscriptionfailed",
	44:  "notcovproperty",
	45:  "optionalfunctionalitynotsupported",
	46:  "invalidconfigurationdata",
	47:  "datatypenotsupported",
	48:  "duplicatename",
	49:  "duplicateobjectid",
	50:  "propertyisnotanarray",
	51:  "abortbufferoverflow",
	52:  "abortinvalidapduinthisstate",
	53:  "abortpreemptedbyhigherprioritytask",
	54:  "abortsegmentationnotsupported",
	55:  "abortproprietary",
	56:  "abortother",
	57:  "invalidtag",
	58:  "networkdown",
	59:  "rejectbufferoverflow",
	60:  "rejectinconsistentparameters",
	61:  "rejectinvalidparameterdatatype",
	62:  "rejectinvalidtag",
	63:  "rejectmissingrequiredparameter",
	64:  "rejectparameteroutofrange",
	65:  "rejecttoomanyarguments",
	66:  "rejectundefinedenumeration",
	67:  "rejectunrecognizedservice",
	68:  "rejectproprietary",
	69:  "rejectother",
	70:  "unknowndevice",
	71:  "unknownroute",
	72:  "valuenotinitialized",
	73:  "invalideventstate",
	74:  "noalarmconfigured",
	75:  "logbufferfull",
	76:  "loggedvaluepurged",
	77:  "nopropertyspecified",
	78:  "notconfiguredfortriggeredlogging",
	79:  "unknownsubscription",
	80:  "parameteroutofrange",
	81:  "listelementnotfound",
	82:  "busy",
	83:  "communicationdisabled",
	84:  "success",
	85:  "accessdenied",
	86:  "baddestinationaddress",
	87:  "baddestinationdeviceid",
	88:  "badsignature",
	89:  "badsourceaddress",
	90:  "badtimestamp",
	91:  "cannotusekey",
	92:  "cannotverifymessageid",
	93:  "correctkeyrevision",
	94:  "destinationdeviceidrequired",
	95:  "duplicatemessage",
	96:  "encryptionnotconfigured",
	97:  "encryptionrequired",
	98:  "incorrectkey",
	99:  "invalidkeydata",
	100: "keyupdateinprogress",
	101: "malformedmessage",
	102: "notkeyserver",
	103: "securitynotconfigured",
	104: "sourcesecurityrequired",
	105: "toomanykeys",
	106: "unknownauthenticationtype",
	107: "unknownkey",
	108: "unknownkeyrevision",
	109: "unknownsourcemessage",
	110: "notroutertodnet",
	111: "routerbusy",
	112: "unknownnetworkmessage",
	113: "messagetoolong",
	114: "securityerrorcode",
	115: "addressingerror",
	116: "writebdtfailed",
	117: "readbdtfailed",
	118: "registerforeigndevicefailed",
	119: "readfdtfailed",
	120: "deletefdtentryfailed",
	121: "distributebroadcastfailed",
	122: "unknownfilesize",
	123: "abortapdutoolong",
	124: "abortapplicationexceededreplytime",
	125: "abortoutofresources",
	126: "aborttsmtimeout",
	127: "abortwindowsizeoutofrange",
	128: "filefull",
	129: "inconsistentconfiguration",
	130: "inconsistentobjecttype",
	131: "internalerror",
	132: "notconfigured",
	133: "outofmemory",
	134: "valuetoolong",
	135: "abortinsufficientsecurity",
	136: "abortsecurityerror",
}

var Services = map[uint32]string{
	0:  "acknowledgealarm",
	1:  "confirmedcovnotification",
	2:  "confirmedeventnotification",
	3:  "getalarmsummary",
	4:  "getenrollmentsummary",
	5:  "subscribecov",
	6:  "atomicreadfile",
	7:  "atomicwritefile",
	8:  "addlistelement",
	9:  "removelistelement",
	10: "createobject",
	11: "deleteobject",
	12: "readproperty",
	14: "readpropertymultiple",
	15: "writeproperty",
	16: "writepropertymultiple",
	17: "devicecommunicationcontrol",
	18: "confirmedprivatetransfer",
	19: "confirmedtextmessage",
	20: "reinitializedevice",
	21: "vtopen",
	22: "vtclose",
	23: "vtdata",
	26: "iam",
	27: "ihave",
	28: "unconfirmedcovnotification",
	29: "unconfirmedeventnotification",
	30: "unconfirmedprivatetransfer",
	31: "unconfirmedtextmessage",
	32: "timesynchronization",
	33: "whohas",
	34: "whois",
	35: "readrange",
	36: "utctimesynchronization",
	37: "lifesafetyoperation",
	38: "subscribecovproperty",
	39: "geteventinformation",
	40: "writegroup",
}

var ErrorClasses = map[uint32]string{
	0: "device",
	1: "object",
	2: "property",
	3: "resources",
	4: "security",
	5: "services",
	6: "vt",
	7: "communication",
}

var Segmentations = map[uint32]string{
	0: "segmentedboth",
	1: "segmentedtransmit",
	2: "segmentedreceive",
	3: "nosegmentation",
}

var ObjectTypes = map[uint32]string{
	0:  "analoginput",
	1:  "analogoutput",
	2:  "analogvalue",
	3:  "binaryinput",
	4:  "binaryoutput",
	5:  "binaryvalue",
	8:  "device",
	10: "file",
	13: "multistateinput",
	14: "multistateoutput",
	15: "notificationclass",
	19: "multistatevalue",
	20: "trendlog",
	40: "characterstring",
}

var NetworkMessages = map[uint32]string{
	0:  "whoisroutertonetwork",
	1:  "iamroutertonetwork",
	18: "whatisnetworknumber",
	19: "networkis",
}

var Properties = map[uint32]string{
	8:   "all",
	28:  "description",
	42:  "filesize",
	43:  "filetype",
	70:  "modelname",
	75:  "objectidentifier",
	76:  "objectlist",
	77:  "objectname",
	78:  "objectpropertyreference",
	79:  "objecttype",
	85:  "presentvalue",
	87:  "priorityarray",
	117: "units",
}
