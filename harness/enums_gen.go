package main

// Code tables frozen from the data dictionary (protocol code -> schema enum number); generated once, then reviewed.
// Not read from the code under test at run time.
var enumTables = map[string]enumTable{
	"dd.v1.CalibrationPurpose": {unrec: 1, m: map[int]int32{
		0: 2, // CALIBRATION_PURPOSE_RESERVED
		1: 3, // ACTIVATION
		2: 4, // FIRST_INSTALLATION
		3: 5, // INSTALLATION
		4: 6, // PERIODIC_INSPECTION
		5: 7, // VRN_ENTRY_BY_COMPANY
		6: 8, // TIME_ADJUSTMENT
	}},
	"dd.v1.CardSlotNumber": {unrec: 1, m: map[int]int32{
		0: 2, // DRIVER_SLOT
		1: 3, // CO_DRIVER_SLOT
	}},
	"dd.v1.ClockStopMode": {unrec: 1, m: map[int]int32{
		0: 2, // NOT_ALLOWED
		1: 3, // ALLOWED_NO_PREFERENCE
		2: 4, // ALLOWED_ONLY_HIGH_LEVEL
		3: 5, // ALLOWED_HIGH_LEVEL_PREFERRED
		4: 6, // ALLOWED_ONLY_LOW_LEVEL
		5: 7, // ALLOWED_LOW_LEVEL_PREFERRED
	}},
	"dd.v1.CompanyActivityType": {unrec: 1, m: map[int]int32{
		1: 2, // CARD_DOWNLOADING
		2: 3, // VU_DOWNLOADING
		3: 4, // VU_LOCK_IN
		4: 5, // VU_LOCK_OUT
	}},
	"dd.v1.DriverActivityValue": {unrec: 1, m: map[int]int32{
		0: 2, // BREAK_REST
		1: 3, // AVAILABILITY
		2: 4, // WORK
		3: 5, // DRIVING
	}},
	"dd.v1.DrivingStatus": {unrec: 1, m: map[int]int32{
		0: 2, // SINGLE
		1: 3, // CREW
	}},
	"dd.v1.EntryTypeDailyWorkPeriod": {unrec: 1, m: map[int]int32{
		0: 2, // BEGIN
		1: 3, // END
		2: 4, // BEGIN_GNSS
		3: 5, // END_GNSS
		4: 6, // BEGIN_ITS
		5: 7, // END_ITS
	}},
	"dd.v1.EquipmentType": {unrec: 1, m: map[int]int32{
		0:  2,  // RESERVED_MEMBER_STATE_OR_EUROPE
		1:  3,  // DRIVER_CARD
		2:  4,  // WORKSHOP_CARD
		3:  5,  // CONTROL_CARD
		4:  6,  // COMPANY_CARD
		5:  7,  // MANUFACTURING_CARD
		6:  8,  // VEHICLE_UNIT
		7:  9,  // MOTION_SENSOR
		8:  10, // GNSS_FACILITY
		9:  11, // REMOTE_COMMUNICATION_MODULE
		10: 12, // ITS_INTERFACE_MODULE
		11: 13, // PLAQUE
		12: 14, // M1_N1_ADAPTER
		13: 15, // EUROPEAN_ROOT_CA
		14: 16, // MEMBER_STATE_CA
		15: 17, // EXTERNAL_GNSS_CONNECTION
		16: 18, // UNUSED
		17: 19, // DRIVER_CARD_SIGN
		18: 20, // WORKSHOP_CARD_SIGN
		19: 21, // VEHICLE_UNIT_SIGN
	}},
	"dd.v1.EventFaultRecordPurpose": {unrec: 1, m: map[int]int32{
		0: 2, // TEN_MOST_RECENT
		1: 3, // LONGEST_IN_LAST_10_DAYS
		2: 4, // FIVE_LONGEST_IN_LAST_365_DAYS
		3: 5, // LAST_IN_LAST_10_DAYS
		4: 6, // MOST_SERIOUS_IN_LAST_10_DAYS
		5: 7, // FIVE_MOST_SERIOUS_IN_LAST_365_DAYS
		6: 8, // FIRST_AFTER_LAST_CALIBRATION
		7: 9, // ACTIVE_OR_ONGOING
	}},
	"dd.v1.EventFaultType": {unrec: 1, m: map[int]int32{
		0:  2,  // GENERAL_NO_FURTHER_DETAILS
		1:  3,  // GENERAL_INSERTION_OF_NON_VALID_CARD
		2:  4,  // GENERAL_CARD_CONFLICT
		3:  5,  // GENERAL_TIME_OVERLAP
		4:  6,  // GENERAL_DRIVING_WITHOUT_APPROPRIATE_CARD
		5:  7,  // GENERAL_CARD_INSERTION_WHILE_DRIVING
		6:  8,  // GENERAL_LAST_CARD_SESSION_NOT_CORRECTLY_CLOSED
		7:  9,  // GENERAL_OVER_SPEEDING
		8:  10, // GENERAL_POWER_SUPPLY_INTERRUPTION
		9:  11, // GENERAL_MOTION_DATA_ERROR
		10: 12, // GENERAL_VEHICLE_MOTION_CONFLICT
		11: 13, // GENERAL_TIME_CONFLICT_GNSS_VS_VU
		12: 14, // GENERAL_COMM_ERROR_REMOTE_COMM_FACILITY
		13: 15, // GENERAL_ABSENCE_OF_POSITION_INFO_FROM_GNSS
		14: 16, // GENERAL_COMM_ERROR_EXTERNAL_GNSS_FACILITY
		15: 17, // GENERAL_GNSS_ANOMALY
		16: 18, // VU_SEC_NO_FURTHER_DETAILS
		17: 19, // VU_SEC_MOTION_SENSOR_AUTH_FAILURE
		18: 20, // VU_SEC_TACHOGRAPH_CARD_AUTH_FAILURE
		19: 21, // VU_SEC_UNAUTHORISED_CHANGE_OF_MOTION_SENSOR
		20: 22, // VU_SEC_CARD_DATA_INPUT_INTEGRITY_ERROR
		21: 23, // VU_SEC_STORED_USER_DATA_INTEGRITY_ERROR
		22: 24, // VU_SEC_INTERNAL_DATA_TRANSFER_ERROR
		23: 25, // VU_SEC_UNAUTHORISED_CASE_OPENING
		24: 26, // VU_SEC_HARDWARE_SABOTAGE
		25: 27, // VU_SEC_TAMPER_DETECTION_OF_GNSS
		26: 28, // VU_SEC_EXTERNAL_GNSS_FACILITY_AUTH_FAILURE
		27: 29, // VU_SEC_EXTERNAL_GNSS_FACILITY_CERT_EXPIRED
		28: 30, // VU_SEC_INCONSISTENCY_MOTION_VS_ACTIVITY
		32: 31, // SENSOR_SEC_NO_FURTHER_DETAILS
		33: 32, // SENSOR_SEC_AUTHENTICATION_FAILURE
		34: 33, // SENSOR_SEC_STORED_DATA_INTEGRITY_ERROR
		35: 34, // SENSOR_SEC_INTERNAL_DATA_TRANSFER_ERROR
		36: 35, // SENSOR_SEC_UNAUTHORISED_CASE_OPENING
		37: 36, // SENSOR_SEC_HARDWARE_SABOTAGE
		48: 37, // FAULT_REC_EQ_NO_FURTHER_DETAILS
		49: 38, // FAULT_REC_EQ_VU_INTERNAL_FAULT
		50: 39, // FAULT_REC_EQ_PRINTER_FAULT
		51: 40, // FAULT_REC_EQ_DISPLAY_FAULT
		52: 41, // FAULT_REC_EQ_DOWNLOADING_FAULT
		53: 42, // FAULT_REC_EQ_SENSOR_FAULT
		54: 43, // FAULT_REC_EQ_INTERNAL_GNSS_RECEIVER
		55: 44, // FAULT_REC_EQ_EXTERNAL_GNSS_FACILITY
		56: 45, // FAULT_REC_EQ_REMOTE_COMM_FACILITY
		57: 46, // FAULT_REC_EQ_ITS_INTERFACE
		58: 47, // FAULT_REC_EQ_INTERNAL_SENSOR_FAULT
		64: 48, // FAULT_CARD_NO_FURTHER_DETAILS
	}},
	"dd.v1.Generation": {unrec: -1, m: map[int]int32{
		1: 1, // GENERATION_1
		2: 2, // GENERATION_2
	}},
	"dd.v1.LoadType": {unrec: 1, m: map[int]int32{
		0: 2, // NOT_DEFINED
		1: 3, // GOODS
		2: 4, // PASSENGERS
	}},
	"dd.v1.NationNumeric": {unrec: 1, m: map[int]int32{
		0:   2,  // NATION_NUMERIC_DEFAULT
		255: 3,  // NATION_NUMERIC_EMPTY
		1:   4,  // AUSTRIA
		2:   5,  // ALBANIA
		3:   6,  // ANDORRA
		4:   7,  // ARMENIA
		5:   8,  // AZERBAIJAN
		6:   9,  // BELGIUM
		7:   10, // BULGARIA
		8:   11, // BOSNIA_HERZEGOVINA
		9:   12, // BELARUS
		10:  13, // SWITZERLAND
		11:  14, // CYPRUS
		12:  15, // CZECH_REPUBLIC
		13:  16, // GERMANY
		14:  17, // DENMARK
		15:  18, // SPAIN
		16:  19, // ESTONIA
		17:  20, // FRANCE
		18:  21, // FINLAND
		19:  22, // LIECHTENSTEIN
		20:  23, // FAROE_ISLANDS
		21:  24, // UNITED_KINGDOM
		22:  25, // GEORGIA
		23:  26, // GREECE
		24:  27, // HUNGARY
		25:  28, // CROATIA
		26:  29, // ITALY
		27:  30, // IRELAND
		28:  31, // ICELAND
		29:  32, // KAZAKHSTAN
		30:  33, // LUXEMBOURG
		31:  34, // LITHUANIA
		32:  35, // LATVIA
		33:  36, // MALTA
		34:  37, // MONACO
		35:  38, // MOLDOVA
		36:  39, // NORTH_MACEDONIA
		37:  40, // NORWAY
		38:  41, // NETHERLANDS
		39:  42, // PORTUGAL
		40:  43, // POLAND
		41:  44, // ROMANIA
		42:  45, // SAN_MARINO
		43:  46, // RUSSIA
		44:  47, // SWEDEN
		45:  48, // SLOVAKIA
		46:  49, // SLOVENIA
		47:  50, // TURKMENISTAN
		48:  51, // TURKEY
		49:  52, // UKRAINE
		50:  53, // VATICAN_CITY
		53:  54, // SERBIA
		54:  55, // MONTENEGRO
		56:  56, // KYRGYZ_REPUBLIC
		253: 57, // EUROPEAN_COMMUNITY
		254: 58, // REST_OF_WORLD
	}},
	"dd.v1.OperationType": {unrec: 1, m: map[int]int32{
		1: 2, // LOAD_OPERATION
		2: 3, // UNLOAD_OPERATION
		3: 4, // SIMULTANEOUS_LOAD_UNLOAD_OPERATION
	}},
	"dd.v1.PositionAuthenticationStatus": {unrec: 1, m: map[int]int32{
		0: 2, // NOT_AUTHENTICATED
		1: 3, // AUTHENTICATED
	}},
	"dd.v1.SlotCardType": {unrec: 1, m: map[int]int32{
		0: 2, // NO_CARD
		1: 3, // DRIVER_CARD_INSERTED
		2: 4, // WORKSHOP_CARD_INSERTED
		3: 5, // CONTROL_CARD_INSERTED
		4: 6, // COMPANY_CARD_INSERTED
	}},
	"dd.v1.SpecificConditionType": {unrec: 1, m: map[int]int32{
		0: 2, // RFU
		1: 3, // OUT_OF_SCOPE_BEGIN
		2: 4, // OUT_OF_SCOPE_END
		3: 5, // FERRY_TRAIN_CROSSING_BEGIN
		4: 6, // FERRY_TRAIN_CROSSING_END
	}},
}
