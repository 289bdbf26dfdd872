From d4e6b7e90b70f58c2b72007122efc1e3bfe98f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 01/62] fix: parse card files holding EFs up to the 65535 byte
 length limit

---
 internal/card/rawcardfile.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/card/rawcardfile.go b/internal/card/rawcardfile.go
index 9de8894..ac6cea6 100644
--- a/internal/card/rawcardfile.go
+++ b/internal/card/rawcardfile.go
@@ -10,10 +10,16 @@ import (
 	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
 )
 
+// maxRecordSize is the size of the largest possible TLV record: 5 bytes header + 65535 bytes value,
+// plus one byte so that the scanner's buffer is never full when a record is complete.
+const maxRecordSize = 5 + 0xFFFF + 1
+
 // UnmarshalRawCardFile parses raw card data.
 func UnmarshalRawCardFile(input []byte) (*cardv1.RawCardFile, error) {
 	var output cardv1.RawCardFile
 	sc := bufio.NewScanner(bytes.NewReader(input))
+	// A record is up to 5+65535 bytes long, which is more than the scanner's default limit.
+	sc.Buffer(nil, maxRecordSize)
 	sc.Split(scanCardFile)
 	for sc.Scan() {
 		record, err := unmarshalRawCardFileRecord(sc.Bytes())
@@ -87,7 +93,7 @@ func unmarshalRawCardFileRecord(input []byte) (*cardv1.RawCardFile_Record, error
 	output.SetLength(int32(length))
 	// Parse value - make a copy since input slice may be reused by scanner
 	value := make([]byte, length)
-	copy(value, input[5:5+length])
+	copy(value, input[5:5+int(length)])
 	output.SetValue(value)
 	// Determine content type and generation based on appendix byte
 	// Per Chapter 12: Appendix encodes both content type and generation in bit pattern
-- 
2.43.0


From 6e99b5ac34cd204b20b74338015aeeebb278355f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 02/62] fix: report truncated vehicle unit transfers as an
 error instead of panicking

---
 internal/vu/activities.go            | 8 ++++----
 internal/vu/events_faults.go         | 8 ++++----
 internal/vu/overview.go              | 4 ++--
 internal/vu/raw_vehicle_unit_file.go | 4 ++--
 internal/vu/technical_data.go        | 2 +-
 5 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/internal/vu/activities.go b/internal/vu/activities.go
index 3d59e67..05e3f8b 100644
--- a/internal/vu/activities.go
+++ b/internal/vu/activities.go
@@ -57,7 +57,7 @@ func sizeOfActivitiesGen1(data []byte) (int, error) {
 	offset += 3 // OdometerValueMidnight
 
 	// VuCardIWData: 2 bytes count + variable records
-	if len(data[offset:]) < 2 {
+	if len(data)-offset < 2 {
 		return 0, fmt.Errorf("insufficient data for noOfIWRecords")
 	}
 	noOfIWRecords := binary.BigEndian.Uint16(data[offset:])
@@ -71,7 +71,7 @@ func sizeOfActivitiesGen1(data []byte) (int, error) {
 	offset += int(noOfIWRecords) * vuCardIWRecordSize
 
 	// VuActivityDailyData: 2 bytes count + variable activity changes
-	if len(data[offset:]) < 2 {
+	if len(data)-offset < 2 {
 		return 0, fmt.Errorf("insufficient data for noOfActivityChanges")
 	}
 	noOfActivityChanges := binary.BigEndian.Uint16(data[offset:])
@@ -82,7 +82,7 @@ func sizeOfActivitiesGen1(data []byte) (int, error) {
 	offset += int(noOfActivityChanges) * activityChangeInfoSize
 
 	// VuPlaceDailyWorkPeriodData: 1 byte count + variable place records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfPlaceRecords")
 	}
 	noOfPlaceRecords := data[offset]
@@ -93,7 +93,7 @@ func sizeOfActivitiesGen1(data []byte) (int, error) {
 	offset += int(noOfPlaceRecords) * vuPlaceDailyWorkPeriodRecordSize
 
 	// VuSpecificConditionData: 2 bytes count + variable condition records
-	if len(data[offset:]) < 2 {
+	if len(data)-offset < 2 {
 		return 0, fmt.Errorf("insufficient data for noOfSpecificConditionRecords")
 	}
 	noOfSpecificConditionRecords := binary.BigEndian.Uint16(data[offset:])
diff --git a/internal/vu/events_faults.go b/internal/vu/events_faults.go
index 23b4f67..186cc51 100644
--- a/internal/vu/events_faults.go
+++ b/internal/vu/events_faults.go
@@ -77,7 +77,7 @@ func sizeOfEventsAndFaultsGen1(data []byte) (int, error) {
 	offset := 0
 
 	// VuFaultData: 1 byte count + variable fault records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuFaults")
 	}
 	noOfVuFaults := data[offset]
@@ -88,7 +88,7 @@ func sizeOfEventsAndFaultsGen1(data []byte) (int, error) {
 	offset += int(noOfVuFaults) * vuFaultRecordSize
 
 	// VuEventData: 1 byte count + variable event records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuEvents")
 	}
 	noOfVuEvents := data[offset]
@@ -102,7 +102,7 @@ func sizeOfEventsAndFaultsGen1(data []byte) (int, error) {
 	offset += 9
 
 	// VuOverSpeedingEventData: 1 byte count + variable overspeed records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuOverSpeedingEvents")
 	}
 	noOfVuOverSpeedingEvents := data[offset]
@@ -113,7 +113,7 @@ func sizeOfEventsAndFaultsGen1(data []byte) (int, error) {
 	offset += int(noOfVuOverSpeedingEvents) * vuOverSpeedingEventRecordSize
 
 	// VuTimeAdjustmentData: 1 byte count + variable time adjustment records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuTimeAdjRecords")
 	}
 	noOfVuTimeAdjRecords := data[offset]
diff --git a/internal/vu/overview.go b/internal/vu/overview.go
index c33517e..ea726b2 100644
--- a/internal/vu/overview.go
+++ b/internal/vu/overview.go
@@ -58,7 +58,7 @@ func sizeOfOverviewGen1(data []byte) (int, error) {
 	offset += 58  // VuDownloadActivityData (4 + 18 + 36)
 
 	// VuCompanyLocksData: 1 byte count + variable records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfLocks")
 	}
 	noOfLocks := data[offset]
@@ -70,7 +70,7 @@ func sizeOfOverviewGen1(data []byte) (int, error) {
 	offset += int(noOfLocks) * vuCompanyLocksRecordSize
 
 	// VuControlActivityData: 1 byte count + variable records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfControls")
 	}
 	noOfControls := data[offset]
diff --git a/internal/vu/raw_vehicle_unit_file.go b/internal/vu/raw_vehicle_unit_file.go
index 5e82277..d528a4c 100644
--- a/internal/vu/raw_vehicle_unit_file.go
+++ b/internal/vu/raw_vehicle_unit_file.go
@@ -100,8 +100,8 @@ func sizeOfTransferValue(data []byte, transferType vuv1.TransferType) (int, erro
 // Total size = 5 + (recordSize * noOfRecords)
 func sizeOfRecordArray(data []byte, offset int) (int, error) {
 	const headerSize = 5
-	if len(data[offset:]) < headerSize {
-		return 0, fmt.Errorf("insufficient data for RecordArray header: need %d, have %d", headerSize, len(data[offset:]))
+	if len(data)-offset < headerSize {
+		return 0, fmt.Errorf("insufficient data for RecordArray header: need %d, have %d", headerSize, max(0, len(data)-offset))
 	}
 
 	recordSize := binary.BigEndian.Uint16(data[offset+1:])
diff --git a/internal/vu/technical_data.go b/internal/vu/technical_data.go
index 5f1fbf6..9210b72 100644
--- a/internal/vu/technical_data.go
+++ b/internal/vu/technical_data.go
@@ -73,7 +73,7 @@ func sizeOfTechnicalDataGen1(data []byte) (int, error) {
 	offset += 20
 
 	// VuCalibrationData: 1 byte count + variable calibration records
-	if len(data[offset:]) < 1 {
+	if len(data)-offset < 1 {
 		return 0, fmt.Errorf("insufficient data for noOfVuCalibrationRecords")
 	}
 	noOfVuCalibrationRecords := data[offset]
-- 
2.43.0


From 07b15c275c317bf2eb9592f9deb79dd4ff265ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:49 +0000
Subject: [PATCH 03/62] fix: count the record arrays of Gen2 vehicle unit
 transfers as the regulation does

---
 internal/vu/activities_gen2_v1.go    |  5 ++++
 internal/vu/activities_gen2_v2.go    | 15 ++++++++++++
 internal/vu/events_faults.go         |  9 +------
 internal/vu/events_faults_gen2_v1.go |  4 ++++
 internal/vu/events_faults_gen2_v2.go |  4 ++++
 internal/vu/technical_data.go        | 35 ++++++++++++++++++++++++++++
 6 files changed, 64 insertions(+), 8 deletions(-)

diff --git a/internal/vu/activities_gen2_v1.go b/internal/vu/activities_gen2_v1.go
index 16aa91f..4f11fec 100644
--- a/internal/vu/activities_gen2_v1.go
+++ b/internal/vu/activities_gen2_v1.go
@@ -70,6 +70,11 @@ func unmarshalActivitiesGen2V1(value []byte) (*vuv1.ActivitiesGen2V1, error) {
 		return nil, err
 	}
 
+	// VuGNSSADRecordArray
+	if err := skipRecordArray("VuGNSSAD"); err != nil {
+		return nil, err
+	}
+
 	// VuSpecificConditionRecordArray
 	if err := skipRecordArray("VuSpecificCondition"); err != nil {
 		return nil, err
diff --git a/internal/vu/activities_gen2_v2.go b/internal/vu/activities_gen2_v2.go
index 082db25..526fdf1 100644
--- a/internal/vu/activities_gen2_v2.go
+++ b/internal/vu/activities_gen2_v2.go
@@ -70,11 +70,26 @@ func unmarshalActivitiesGen2V2(value []byte) (*vuv1.ActivitiesGen2V2, error) {
 		return nil, err
 	}
 
+	// VuGNSSADRecordArray
+	if err := skipRecordArray("VuGNSSAD"); err != nil {
+		return nil, err
+	}
+
 	// VuSpecificConditionRecordArray
 	if err := skipRecordArray("VuSpecificCondition"); err != nil {
 		return nil, err
 	}
 
+	// VuBorderCrossingRecordArray
+	if err := skipRecordArray("VuBorderCrossing"); err != nil {
+		return nil, err
+	}
+
+	// VuLoadUnloadRecordArray
+	if err := skipRecordArray("VuLoadUnload"); err != nil {
+		return nil, err
+	}
+
 	// SignatureRecordArray (last)
 	if err := skipRecordArray("Signature"); err != nil {
 		return nil, err
diff --git a/internal/vu/events_faults.go b/internal/vu/events_faults.go
index 186cc51..fc39491 100644
--- a/internal/vu/events_faults.go
+++ b/internal/vu/events_faults.go
@@ -179,7 +179,7 @@ func sizeOfEventsAndFaultsGen2V1(data []byte) (int, error) {
 }
 
 // sizeOfEventsAndFaultsGen2V2 calculates size by parsing all Gen2 V2 RecordArrays.
-// Gen2 V2 has an additional VuTimeAdjustmentGNSSRecordArray.
+// The RecordArrays are the same as for Gen2 V1.
 func sizeOfEventsAndFaultsGen2V2(data []byte) (int, error) {
 	offset := 0
 
@@ -218,13 +218,6 @@ func sizeOfEventsAndFaultsGen2V2(data []byte) (int, error) {
 	}
 	offset += size
 
-	// VuTimeAdjustmentGNSSRecordArray (Gen2 V2+)
-	size, err = sizeOfRecordArray(data, offset)
-	if err != nil {
-		return 0, fmt.Errorf("VuTimeAdjustmentGNSSRecordArray: %w", err)
-	}
-	offset += size
-
 	// SignatureRecordArray (last)
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
diff --git a/internal/vu/events_faults_gen2_v1.go b/internal/vu/events_faults_gen2_v1.go
index 2d8103b..0f1f8c8 100644
--- a/internal/vu/events_faults_gen2_v1.go
+++ b/internal/vu/events_faults_gen2_v1.go
@@ -39,6 +39,10 @@ func unmarshalEventsAndFaultsGen2V1(value []byte) (*vuv1.EventsAndFaultsGen2V1,
 	if err := skipRecordArray("VuOverSpeedingControl"); err != nil {
 		return nil, err
 	}
+	// VuOverSpeedingEventRecordArray
+	if err := skipRecordArray("VuOverSpeedingEvent"); err != nil {
+		return nil, err
+	}
 	// VuTimeAdjustmentRecordArray
 	if err := skipRecordArray("VuTimeAdjustment"); err != nil {
 		return nil, err
diff --git a/internal/vu/events_faults_gen2_v2.go b/internal/vu/events_faults_gen2_v2.go
index b1f381e..c6e1416 100644
--- a/internal/vu/events_faults_gen2_v2.go
+++ b/internal/vu/events_faults_gen2_v2.go
@@ -39,6 +39,10 @@ func unmarshalEventsAndFaultsGen2V2(value []byte) (*vuv1.EventsAndFaultsGen2V2,
 	if err := skipRecordArray("VuOverSpeedingControl"); err != nil {
 		return nil, err
 	}
+	// VuOverSpeedingEventRecordArray
+	if err := skipRecordArray("VuOverSpeedingEvent"); err != nil {
+		return nil, err
+	}
 	// VuTimeAdjustmentRecordArray
 	if err := skipRecordArray("VuTimeAdjustment"); err != nil {
 		return nil, err
diff --git a/internal/vu/technical_data.go b/internal/vu/technical_data.go
index 9210b72..c9d3c22 100644
--- a/internal/vu/technical_data.go
+++ b/internal/vu/technical_data.go
@@ -107,6 +107,13 @@ func sizeOfTechnicalDataGen2V1(data []byte) (int, error) {
 	}
 	offset += size
 
+	// SensorExternalGNSSCoupledRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("SensorExternalGNSSCoupledRecordArray: %w", err)
+	}
+	offset += size
+
 	// VuCalibrationRecordArray
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
@@ -114,6 +121,27 @@ func sizeOfTechnicalDataGen2V1(data []byte) (int, error) {
 	}
 	offset += size
 
+	// VuCardRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("VuCardRecordArray: %w", err)
+	}
+	offset += size
+
+	// VuITSConsentRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("VuITSConsentRecordArray: %w", err)
+	}
+	offset += size
+
+	// VuPowerSupplyInterruptionRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("VuPowerSupplyInterruptionRecordArray: %w", err)
+	}
+	offset += size
+
 	// SignatureRecordArray (last)
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
@@ -156,6 +184,13 @@ func sizeOfTechnicalDataGen2V2(data []byte) (int, error) {
 	}
 	offset += size
 
+	// VuCardRecordArray
+	size, err = sizeOfRecordArray(data, offset)
+	if err != nil {
+		return 0, fmt.Errorf("VuCardRecordArray: %w", err)
+	}
+	offset += size
+
 	// VuITSConsentRecordArray (Gen2 V2+)
 	size, err = sizeOfRecordArray(data, offset)
 	if err != nil {
-- 
2.43.0


From 2f9e743d1c0205b37022c2f2e8ed4ae5a1beb579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 04/62] fix: keep event, fault and vehicle unit records from
 sharing the scanner's buffer

---
 internal/card/events.go             | 3 ++-
 internal/card/faults.go             | 3 ++-
 internal/card/vehicle_units_used.go | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/card/events.go b/internal/card/events.go
index 7419d2c..612ec67 100644
--- a/internal/card/events.go
+++ b/internal/card/events.go
@@ -49,7 +49,8 @@ func (opts UnmarshalOptions) unmarshalEventsData(data []byte) (*cardv1.EventsDat
 
 	var records []*cardv1.EventsData_Record
 	for scanner.Scan() {
-		recordData := scanner.Bytes()
+		// The scanner reuses its buffer, and the parsed record keeps slices of its data.
+		recordData := bytes.Clone(scanner.Bytes())
 		// Check if this is a valid record by examining the event begin time (first 4 bytes after event type)
 		// Event type is 1 byte, so event begin time starts at byte 1
 		eventBeginTime := binary.BigEndian.Uint32(recordData[1:5])
diff --git a/internal/card/faults.go b/internal/card/faults.go
index 7c2724f..3040996 100644
--- a/internal/card/faults.go
+++ b/internal/card/faults.go
@@ -49,7 +49,8 @@ func (opts UnmarshalOptions) unmarshalFaultsData(data []byte) (*cardv1.FaultsDat
 
 	var records []*cardv1.FaultsData_Record
 	for scanner.Scan() {
-		recordData := scanner.Bytes()
+		// The scanner reuses its buffer, and the parsed record keeps slices of its data.
+		recordData := bytes.Clone(scanner.Bytes())
 		// Check if this is a valid record by examining the fault begin time (first 4 bytes after fault type)
 		// Fault type is 1 byte, so fault begin time starts at byte 1
 		faultBeginTime := binary.BigEndian.Uint32(recordData[1:5])
diff --git a/internal/card/vehicle_units_used.go b/internal/card/vehicle_units_used.go
index 8d8e680..62c6ff0 100644
--- a/internal/card/vehicle_units_used.go
+++ b/internal/card/vehicle_units_used.go
@@ -91,7 +91,8 @@ func parseCardVehicleUnitRecords(data []byte, opts UnmarshalOptions) ([]*cardv1.
 
 	var records []*cardv1.VehicleUnitsUsed_Record
 	for scanner.Scan() {
-		record, err := unmarshalCardVehicleUnitRecord(scanner.Bytes(), opts)
+		// The scanner reuses its buffer, and the parsed record keeps slices of its data.
+		record, err := unmarshalCardVehicleUnitRecord(bytes.Clone(scanner.Bytes()), opts)
 		if err != nil {
 			return nil, fmt.Errorf("failed to unmarshal vehicle unit record: %w", err)
 		}
-- 
2.43.0


From c6c0221a7032167453656f8ec132db34442bf0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:28 +0000
Subject: [PATCH 05/62] fix: parse vehicle unit files without keeping slices of
 the caller's buffer

---
 internal/vu/raw_vehicle_unit_file.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/vu/raw_vehicle_unit_file.go b/internal/vu/raw_vehicle_unit_file.go
index d528a4c..be1ab37 100644
--- a/internal/vu/raw_vehicle_unit_file.go
+++ b/internal/vu/raw_vehicle_unit_file.go
@@ -1,6 +1,7 @@
 package vu
 
 import (
+	"bytes"
 	"encoding/binary"
 	"fmt"
 
@@ -50,7 +51,8 @@ func unmarshalRawVehicleUnitFile(data []byte) (*vuv1.RawVehicleUnitFile, error)
 		if offset+valueSize > len(data) {
 			return nil, fmt.Errorf("insufficient data for %v value: need %d bytes, have %d", transferType, valueSize, len(data)-offset)
 		}
-		value := data[offset : offset+valueSize]
+		// Copy the value: the parsed file must not change with the caller's buffer.
+		value := bytes.Clone(data[offset : offset+valueSize])
 		offset += valueSize
 
 		// Create record
-- 
2.43.0


From fe346b16458d5d6124e4fac5704c4384886d8262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 06/62] fix: find embedded certificates in their directories

---
 internal/cert/certcache/embed.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/cert/certcache/embed.go b/internal/cert/certcache/embed.go
index d28f1eb..0268fb3 100644
--- a/internal/cert/certcache/embed.go
+++ b/internal/cert/certcache/embed.go
@@ -19,7 +19,7 @@ func Root() []byte {
 
 // ReadG1 reads a cached Gen1 certificate by its CHR.
 func ReadG1(chr string) ([]byte, bool) {
-	data, err := g1.ReadFile(chr + ".bin")
+	data, err := g1.ReadFile("g1/" + chr + ".bin")
 	if err != nil {
 		return nil, false
 	}
@@ -28,7 +28,7 @@ func ReadG1(chr string) ([]byte, bool) {
 
 // ReadG2 reads a cached Gen2 certificate by its CHR.
 func ReadG2(chr string) ([]byte, bool) {
-	data, err := g2.ReadFile(chr + ".bin")
+	data, err := g2.ReadFile("g2/" + chr + ".bin")
 	if err != nil {
 		return nil, false
 	}
-- 
2.43.0


From fefa2fb4d90e4d467e6671fc73dc45c0459201da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 07/62] fix: write the stored signatures of driver card files
 instead of zeros

---
 internal/card/driver_card_file.go | 83 ++++++++++++++++---------------
 1 file changed, 42 insertions(+), 41 deletions(-)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index 1da85a1..fdf0247 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/binary"
 	"fmt"
+	"math"
 	"reflect"
 
 	"google.golang.org/protobuf/proto"
@@ -649,22 +650,9 @@ func appendDriverCard(dst []byte, card *cardv1.DriverCardFile) ([]byte, error) {
 	}
 
 	// 4. EF_IDENTIFICATION (0x0520) - composite file
-	if identification := card.GetTachograph().GetIdentification(); identification != nil {
-		valBuf := make([]byte, 0, 143)
-		valBuf, err = appendCardIdentification(valBuf, identification.GetCard())
-		if err != nil {
-			return nil, err
-		}
-		valBuf, err = appendDriverCardHolderIdentification(valBuf, identification.GetDriverCardHolder())
-		if err != nil {
-			return nil, err
-		}
-		dst, err = appendTlv(dst, cardv1.ElementaryFileType_EF_IDENTIFICATION, &compositeMessage{data: valBuf}, func(dst []byte, msg *compositeMessage) ([]byte, error) {
-			return append(dst, msg.data...), nil
-		})
-		if err != nil {
-			return nil, err
-		}
+	dst, err = appendTlv(dst, cardv1.ElementaryFileType_EF_IDENTIFICATION, card.GetTachograph().GetIdentification(), appendDriverCardIdentification)
+	if err != nil {
+		return nil, err
 	}
 
 	dst, err = appendTlv(dst, cardv1.ElementaryFileType_EF_EVENTS_DATA, card.GetTachograph().GetEventsData(), appendEventsData)
@@ -826,14 +814,13 @@ func appendDriverCard(dst []byte, card *cardv1.DriverCardFile) ([]byte, error) {
 	return dst, nil
 }
 
-// compositeMessage is a helper type for marshalling composite TLV values
-type compositeMessage struct {
-	data []byte
-}
-
-// ProtoReflect implements proto.Message
-func (m *compositeMessage) ProtoReflect() protoreflect.Message {
-	return nil // Not needed for our use case
+// appendDriverCardIdentification appends the composite EF_IDENTIFICATION of a driver card.
+func appendDriverCardIdentification(dst []byte, identification *cardv1.Identification) ([]byte, error) {
+	dst, err := appendCardIdentification(dst, identification.GetCard())
+	if err != nil {
+		return nil, err
+	}
+	return appendDriverCardHolderIdentification(dst, identification.GetDriverCardHolder())
 }
 
 // appendCertificateEF appends a Gen1 certificate EF (which are not signed)
@@ -909,19 +896,15 @@ func appendTlv[T proto.Message](
 	}
 
 	valLen := len(dst) - valPos
+	if valLen > math.MaxUint16 {
+		return nil, fmt.Errorf("EF %04X is too long: %d bytes", uint16(tag), valLen)
+	}
 
 	// Update the length field
 	binary.BigEndian.PutUint16(dst[lenPos:], uint16(valLen))
 
-	// Add signature block (FID + appendix 0x01, 128 bytes of zeros for now)
-	dst = binary.BigEndian.AppendUint16(dst, uint16(tag))
-	dst = append(dst, 0x01)                       // appendix for signature
-	dst = binary.BigEndian.AppendUint16(dst, 128) // Signature length
-	// Add 128 bytes of signature data (zeros for now)
-	signature := make([]byte, 128)
-	dst = append(dst, signature...)
-
-	return dst, nil
+	// Add the signature block (FID + appendix 0x01)
+	return appendSignatureBlock(dst, msg, uint16(tag), 0x01)
 }
 
 // appendTlvUnsigned is like appendTlv but doesn't add a signature block
@@ -957,6 +940,9 @@ func appendTlvUnsigned[T proto.Message](
 	}
 
 	valLen := len(dst) - valPos
+	if valLen > math.MaxUint16 {
+		return nil, fmt.Errorf("EF %04X is too long: %d bytes", uint16(tag), valLen)
+	}
 
 	// Update the length field
 	binary.BigEndian.PutUint16(dst[lenPos:], uint16(valLen))
@@ -998,19 +984,34 @@ func appendTlvG2[T proto.Message](
 	}
 
 	valLen := len(dst) - valPos
+	if valLen > math.MaxUint16 {
+		return nil, fmt.Errorf("EF %04X is too long: %d bytes", uint16(tag), valLen)
+	}
 
 	// Update the length field
 	binary.BigEndian.PutUint16(dst[lenPos:], uint16(valLen))
 
-	// Add signature block (FID + appendix 0x03, 128 bytes of zeros for now) - Gen2 DF
-	dst = binary.BigEndian.AppendUint16(dst, uint16(tag))
-	dst = append(dst, 0x03)                       // appendix for Gen2 signature
-	dst = binary.BigEndian.AppendUint16(dst, 128) // Signature length
-	// Add 128 bytes of signature data (zeros for now)
-	signature := make([]byte, 128)
-	dst = append(dst, signature...)
+	// Add the signature block (FID + appendix 0x03) - Gen2 DF
+	return appendSignatureBlock(dst, msg, uint16(tag), 0x03)
+}
 
-	return dst, nil
+// appendSignatureBlock writes the signature stored in an EF message, if it has one.
+func appendSignatureBlock(dst []byte, msg proto.Message, tag uint16, appendix byte) ([]byte, error) {
+	signed, ok := msg.(interface {
+		HasSignature() bool
+		GetSignature() []byte
+	})
+	if !ok || !signed.HasSignature() {
+		return dst, nil
+	}
+	signature := signed.GetSignature()
+	if len(signature) > math.MaxUint16 {
+		return nil, fmt.Errorf("signature of EF %04X is too long: %d bytes", tag, len(signature))
+	}
+	dst = binary.BigEndian.AppendUint16(dst, tag)
+	dst = append(dst, appendix)
+	dst = binary.BigEndian.AppendUint16(dst, uint16(len(signature)))
+	return append(dst, signature...), nil
 }
 
 // CertificateResolver provides access to tachograph certificates
-- 
2.43.0


From e114ff110b97efa560d455f094f956dfe0324218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:23 +0000
Subject: [PATCH 08/62] fix: write the files a Gen2 application shares with
 Gen1

---
 internal/card/driver_card_file.go | 59 +++++++++++++++++++++++++++++++
 1 file changed, 59 insertions(+)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index fdf0247..94dfc82 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -710,6 +710,31 @@ func appendDriverCard(dst []byte, card *cardv1.DriverCardFile) ([]byte, error) {
 			return nil, err
 		}
 
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_DRIVING_LICENCE_INFO, tachographG2.GetDrivingLicenceInfo(), appendDrivingLicenceInfo)
+		if err != nil {
+			return nil, err
+		}
+
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_IDENTIFICATION, tachographG2.GetIdentification(), appendDriverCardIdentification)
+		if err != nil {
+			return nil, err
+		}
+
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_EVENTS_DATA, tachographG2.GetEventsData(), appendEventsData)
+		if err != nil {
+			return nil, err
+		}
+
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_FAULTS_DATA, tachographG2.GetFaultsData(), appendFaultsData)
+		if err != nil {
+			return nil, err
+		}
+
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_DRIVER_ACTIVITY_DATA, tachographG2.GetDriverActivityData(), appendDriverActivity)
+		if err != nil {
+			return nil, err
+		}
+
 		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_VEHICLES_USED, tachographG2.GetVehiclesUsed(), appendVehiclesUsedG2)
 		if err != nil {
 			return nil, err
@@ -720,12 +745,28 @@ func appendDriverCard(dst []byte, card *cardv1.DriverCardFile) ([]byte, error) {
 			return nil, err
 		}
 
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_CURRENT_USAGE, tachographG2.GetCurrentUsage(), appendCurrentUsage)
+		if err != nil {
+			return nil, err
+		}
+
+		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_CONTROL_ACTIVITY_DATA, tachographG2.GetControlActivityData(), appendCardControlActivityData)
+		if err != nil {
+			return nil, err
+		}
+
 		// SpecificConditions (Gen2)
 		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_SPECIFIC_CONDITIONS, tachographG2.GetSpecificConditions(), appendCardSpecificConditionsG2)
 		if err != nil {
 			return nil, err
 		}
 
+		// CardDownload (Gen2) - no signature
+		dst, err = appendTlvUnsignedG2(dst, cardv1.ElementaryFileType_EF_CARD_DOWNLOAD_DRIVER, tachographG2.GetCardDownload(), appendCardDownload)
+		if err != nil {
+			return nil, err
+		}
+
 		// Marshal Gen2-exclusive EFs
 		dst, err = appendTlvG2(dst, cardv1.ElementaryFileType_EF_VEHICLE_UNITS_USED, tachographG2.GetVehicleUnitsUsed(), appendCardVehicleUnitsUsed)
 		if err != nil {
@@ -951,6 +992,24 @@ func appendTlvUnsigned[T proto.Message](
 	return dst, nil
 }
 
+// appendTlvUnsignedG2 is like appendTlvUnsigned but uses the Gen2 DF appendix (0x02)
+func appendTlvUnsignedG2[T proto.Message](
+	dst []byte,
+	fileType cardv1.ElementaryFileType,
+	msg T,
+	appenderFunc func([]byte, T) ([]byte, error),
+) ([]byte, error) {
+	tagPos := len(dst)
+	dst, err := appendTlvUnsigned(dst, fileType, msg, appenderFunc)
+	if err != nil {
+		return nil, err
+	}
+	if len(dst) > tagPos {
+		dst[tagPos+2] = 0x02 // appendix for Gen2 data
+	}
+	return dst, nil
+}
+
 // appendTlvG2 is like appendTlv but uses Gen2 DF appendix (0x02/0x03 instead of 0x00/0x01)
 func appendTlvG2[T proto.Message](
 	dst []byte,
-- 
2.43.0


From 0f371663b8272979c811871f6780be57413af407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:30 +0000
Subject: [PATCH 09/62] fix: accept the mutual authentication certificate of
 Gen2 driver cards

---
 internal/card/driver_card_file.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index 94dfc82..019946e 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -78,7 +78,13 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 			}
 		}
 
-		switch record.GetFile() {
+		// Card_Certificate (Gen1) and CardMA_Certificate (Gen2) share the FID C100h.
+		file := record.GetFile()
+		if file == cardv1.ElementaryFileType_EF_CARD_CERTIFICATE && efGeneration == ddv1.Generation_GENERATION_2 {
+			file = cardv1.ElementaryFileType_EF_CARD_MA_CERTIFICATE
+		}
+
+		switch file {
 		case cardv1.ElementaryFileType_EF_ICC:
 			icc, err := opts.unmarshalIcc(record.GetValue())
 			if err != nil {
-- 
2.43.0


From dae5f2ac0191ffac1fbe7aa6378d047861f23493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:35 +0000
Subject: [PATCH 10/62] fix: never attach a signature of one generation to a
 file of the other

---
 internal/card/driver_card_file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index 019946e..c448734 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -72,7 +72,7 @@ func unmarshalDriverCardFile(input *cardv1.RawCardFile) (*cardv1.DriverCardFile,
 		var signature []byte
 		if i+1 < len(input.GetRecords()) {
 			nextRecord := input.GetRecords()[i+1]
-			if nextRecord.GetFile() == record.GetFile() && nextRecord.GetContentType() == cardv1.ContentType_SIGNATURE {
+			if nextRecord.GetFile() == record.GetFile() && nextRecord.GetGeneration() == record.GetGeneration() && nextRecord.GetContentType() == cardv1.ContentType_SIGNATURE {
 				signature = nextRecord.GetValue()
 				i++
 			}
-- 
2.43.0


From 157ebf80825392f27d528c1c4d3c547a59f05d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:21 +0000
Subject: [PATCH 11/62] fix: read and write all ten bytes of the application
 identification of version 2 cards

---
 .../card/application_identification_v2.go     | 126 +++++++-----------
 1 file changed, 50 insertions(+), 76 deletions(-)

diff --git a/internal/card/application_identification_v2.go b/internal/card/application_identification_v2.go
index 9837022..57b6e90 100644
--- a/internal/card/application_identification_v2.go
+++ b/internal/card/application_identification_v2.go
@@ -1,66 +1,43 @@
 package card
 
 import (
-	"bytes"
 	"encoding/binary"
 	"fmt"
+	"math"
 
 	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
 )
 
 // unmarshalApplicationIdentificationV2 parses the binary data for an EF_ApplicationIdentificationV2 record.
 //
-// The data type `ApplicationIdentificationV2` is specified in the Data Dictionary, Section 2.2.
+// The data type `DriverCardApplicationIdentificationV2` is specified in the Data Dictionary, Section 2.61a.
 //
 // ASN.1 Definition:
 //
-//	ApplicationIdentificationV2 ::= SEQUENCE {
-//	    noOfBorderCrossingRecords    INTEGER(0..255),
-//	    noOfLoadUnloadRecords        INTEGER(0..255),
-//	    noOfLoadTypeEntryRecords     INTEGER(0..255),
-//	    vuConfigurationLengthRange   INTEGER(0..255)
+//	DriverCardApplicationIdentificationV2 ::= SEQUENCE {
+//	    lengthOfFollowingData        INTEGER(0..65535),
+//	    noOfBorderCrossingRecords    INTEGER(0..65535),
+//	    noOfLoadUnloadRecords        INTEGER(0..65535),
+//	    noOfLoadTypeEntryRecords     INTEGER(0..65535),
+//	    vuConfigurationLengthRange   INTEGER(0..65535)
 //	}
 func (opts UnmarshalOptions) unmarshalApplicationIdentificationV2(data []byte) (*cardv1.ApplicationIdentificationV2, error) {
 	const (
-		lenEfApplicationIdentificationV2 = 4 // EF_ApplicationIdentificationV2 record size
+		lenEfApplicationIdentificationV2 = 10 // EF_ApplicationIdentificationV2 record size
 	)
 
-	if len(data) < lenEfApplicationIdentificationV2 {
-		return nil, fmt.Errorf("insufficient data for application identification V2: got %d bytes, need %d", len(data), lenEfApplicationIdentificationV2)
+	if len(data) != lenEfApplicationIdentificationV2 {
+		return nil, fmt.Errorf("invalid data length for application identification V2: got %d bytes, want %d", len(data), lenEfApplicationIdentificationV2)
 	}
 	var target cardv1.ApplicationIdentificationV2
-	r := bytes.NewReader(data)
 
 	// For now, assume this is a driver card and create the driver data
 	driver := &cardv1.ApplicationIdentificationV2_Driver{}
-
-	// Read border crossing records count (1 byte)
-	var borderCrossingCount byte
-	if err := binary.Read(r, binary.BigEndian, &borderCrossingCount); err != nil {
-		return nil, fmt.Errorf("failed to read border crossing records count: %w", err)
-	}
-	driver.SetBorderCrossingRecordsCount(int32(borderCrossingCount))
-
-	// Read load/unload records count (1 byte)
-	var loadUnloadCount byte
-	if err := binary.Read(r, binary.BigEndian, &loadUnloadCount); err != nil {
-		return nil, fmt.Errorf("failed to read load/unload records count: %w", err)
-	}
-	driver.SetLoadUnloadRecordsCount(int32(loadUnloadCount))
-
-	// Read load type entry records count (1 byte)
-	var loadTypeCount byte
-	if err := binary.Read(r, binary.BigEndian, &loadTypeCount); err != nil {
-		return nil, fmt.Errorf("failed to read load type entry records count: %w", err)
-	}
-	driver.SetLoadTypeEntryRecordsCount(int32(loadTypeCount))
-
-	// Read VU configuration length range (1 byte)
-	var vuConfigRange byte
-	if err := binary.Read(r, binary.BigEndian, &vuConfigRange); err != nil {
-		return nil, fmt.Errorf("failed to read VU configuration length range: %w", err)
-	}
-	driver.SetVuConfigurationLengthRange(int32(vuConfigRange))
+	driver.SetLengthOfFollowingData(int32(binary.BigEndian.Uint16(data[0:2])))
+	driver.SetBorderCrossingRecordsCount(int32(binary.BigEndian.Uint16(data[2:4])))
+	driver.SetLoadUnloadRecordsCount(int32(binary.BigEndian.Uint16(data[4:6])))
+	driver.SetLoadTypeEntryRecordsCount(int32(binary.BigEndian.Uint16(data[6:8])))
+	driver.SetVuConfigurationLengthRange(int32(binary.BigEndian.Uint16(data[8:10])))
 
 	// Set the driver data and card type
 	target.SetDriver(driver)
@@ -71,60 +48,57 @@ func (opts UnmarshalOptions) unmarshalApplicationIdentificationV2(data []byte) (
 
 // AppendCardApplicationIdentificationV2 appends application identification V2 data to a byte slice.
 //
-// The data type `ApplicationIdentificationV2` is specified in the Data Dictionary, Section 2.2.
+// The data type `DriverCardApplicationIdentificationV2` is specified in the Data Dictionary, Section 2.61a.
 //
 // ASN.1 Definition:
 //
-//	ApplicationIdentificationV2 ::= SEQUENCE {
-//	    noOfBorderCrossingRecords    INTEGER(0..255),
-//	    noOfLoadUnloadRecords        INTEGER(0..255),
-//	    noOfLoadTypeEntryRecords     INTEGER(0..255),
-//	    vuConfigurationLengthRange   INTEGER(0..255)
+//	DriverCardApplicationIdentificationV2 ::= SEQUENCE {
+//	    lengthOfFollowingData        INTEGER(0..65535),
+//	    noOfBorderCrossingRecords    INTEGER(0..65535),
+//	    noOfLoadUnloadRecords        INTEGER(0..65535),
+//	    noOfLoadTypeEntryRecords     INTEGER(0..65535),
+//	    vuConfigurationLengthRange   INTEGER(0..65535)
 //	}
 func appendCardApplicationIdentificationV2(data []byte, appIdV2 *cardv1.ApplicationIdentificationV2) ([]byte, error) {
 	if appIdV2 == nil {
 		return data, nil
 	}
 
-	// Get the appropriate nested message based on card type
-	var borderCrossingRecords, loadUnloadRecords, loadTypeEntryRecords, vuConfigLength int32
-
+	// Collect the fields of the appropriate nested message based on card type
+	var fields []int32
 	switch appIdV2.GetCardType() {
 	case cardv1.CardType_DRIVER_CARD:
-		if driver := appIdV2.GetDriver(); driver != nil {
-			borderCrossingRecords = driver.GetBorderCrossingRecordsCount()
-			loadUnloadRecords = driver.GetLoadUnloadRecordsCount()
-			loadTypeEntryRecords = driver.GetLoadTypeEntryRecordsCount()
-			vuConfigLength = driver.GetVuConfigurationLengthRange()
+		driver := appIdV2.GetDriver()
+		fields = []int32{
+			driver.GetLengthOfFollowingData(),
+			driver.GetBorderCrossingRecordsCount(),
+			driver.GetLoadUnloadRecordsCount(),
+			driver.GetLoadTypeEntryRecordsCount(),
+			driver.GetVuConfigurationLengthRange(),
 		}
 	case cardv1.CardType_WORKSHOP_CARD:
-		if workshop := appIdV2.GetWorkshop(); workshop != nil {
-			borderCrossingRecords = workshop.GetBorderCrossingRecordsCount()
-			loadUnloadRecords = workshop.GetLoadUnloadRecordsCount()
-			loadTypeEntryRecords = workshop.GetLoadTypeEntryRecordsCount()
-			vuConfigLength = workshop.GetVuConfigurationLengthRange()
+		workshop := appIdV2.GetWorkshop()
+		fields = []int32{
+			workshop.GetLengthOfFollowingData(),
+			workshop.GetBorderCrossingRecordsCount(),
+			workshop.GetLoadUnloadRecordsCount(),
+			workshop.GetLoadTypeEntryRecordsCount(),
+			workshop.GetVuConfigurationLengthRange(),
 		}
 	case cardv1.CardType_COMPANY_CARD:
-		if company := appIdV2.GetCompany(); company != nil {
-			vuConfigLength = company.GetVuConfigurationLengthRange()
-		}
+		company := appIdV2.GetCompany()
+		fields = []int32{company.GetLengthOfFollowingData(), company.GetVuConfigurationLengthRange()}
 	case cardv1.CardType_CONTROL_CARD:
-		if control := appIdV2.GetControl(); control != nil {
-			vuConfigLength = control.GetVuConfigurationLengthRange()
+		control := appIdV2.GetControl()
+		fields = []int32{control.GetLengthOfFollowingData(), control.GetVuConfigurationLengthRange()}
+	default:
+		return nil, fmt.Errorf("unsupported card type for application identification V2: %v", appIdV2.GetCardType())
+	}
+	for _, field := range fields {
+		if field < 0 || field > math.MaxUint16 {
+			return nil, fmt.Errorf("application identification V2 field out of range: %d", field)
 		}
+		data = binary.BigEndian.AppendUint16(data, uint16(field))
 	}
-
-	// Border crossing records count (1 byte)
-	data = append(data, byte(borderCrossingRecords))
-
-	// Load/unload records count (1 byte)
-	data = append(data, byte(loadUnloadRecords))
-
-	// Load type entry records count (1 byte)
-	data = append(data, byte(loadTypeEntryRecords))
-
-	// VU configuration length range (1 byte)
-	data = append(data, byte(vuConfigLength))
-
 	return data, nil
 }
-- 
2.43.0


From fc92af3dc248c71f3c9acab3116c5025f4718b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:56 +0000
Subject: [PATCH 12/62] fix: let cleared control type flags reach the
 marshalled byte

---
 internal/dd/controltype.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/dd/controltype.go b/internal/dd/controltype.go
index 8fc9019..5bf8ac0 100644
--- a/internal/dd/controltype.go
+++ b/internal/dd/controltype.go
@@ -55,6 +55,7 @@ func AppendControlType(dst []byte, controlType *ddv1.ControlType) ([]byte, error
 		}
 		copy(canvas[:], controlType.GetRawData())
 	}
+	canvas[0] &= 0x07 // keep the reserved bits only
 	if controlType.GetCardDownloading() {
 		canvas[0] |= 0x80
 	}
-- 
2.43.0


From 37ef39d4c4b640eb846964613f91b3044011cc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 13/62] fix: keep nation and index bytes of full card numbers
 and read control card numbers

---
 internal/dd/full_card_number.go | 49 ++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/internal/dd/full_card_number.go b/internal/dd/full_card_number.go
index b68eb1d..38a426e 100644
--- a/internal/dd/full_card_number.go
+++ b/internal/dd/full_card_number.go
@@ -45,20 +45,33 @@ func (opts UnmarshalOptions) UnmarshalFullCardNumber(data []byte) (*ddv1.FullCar
 	cardNumber.SetCardType(cardType)
 
 	// Parse issuing member state (1 byte)
-	issuingState := data[1]
-	cardNumber.SetCardIssuingMemberState(ddv1.NationNumeric(issuingState))
+	if issuingState, err := UnmarshalEnum[ddv1.NationNumeric](data[1]); err == nil {
+		cardNumber.SetCardIssuingMemberState(issuingState)
+	} else {
+		cardNumber.SetCardIssuingMemberState(ddv1.NationNumeric_NATION_NUMERIC_UNRECOGNIZED)
+	}
 
 	// Parse card number based on card type (16 bytes, may have padding)
 	cardNumberData := data[2:18]
 	switch cardType {
 	case ddv1.EquipmentType_DRIVER_CARD:
-		// DriverIdentification is 14 bytes + 2 bytes padding
+		// DriverIdentification is 14 bytes + 1 byte replacement index + 1 byte renewal index
 		driverID, err := opts.UnmarshalDriverIdentification(cardNumberData[:14])
 		if err != nil {
 			return nil, fmt.Errorf("failed to parse driver identification: %w", err)
 		}
+		replacementIndex, err := opts.UnmarshalIa5StringValue(cardNumberData[14:15])
+		if err != nil {
+			return nil, fmt.Errorf("failed to parse card replacement index: %w", err)
+		}
+		driverID.SetCardReplacementIndex(replacementIndex)
+		renewalIndex, err := opts.UnmarshalIa5StringValue(cardNumberData[15:16])
+		if err != nil {
+			return nil, fmt.Errorf("failed to parse card renewal index: %w", err)
+		}
+		driverID.SetCardRenewalIndex(renewalIndex)
 		cardNumber.SetDriverIdentification(driverID)
-	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_COMPANY_CARD:
+	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_CONTROL_CARD, ddv1.EquipmentType_COMPANY_CARD:
 		// OwnerIdentification is 16 bytes (no padding)
 		ownerID, err := opts.UnmarshalOwnerIdentification(cardNumberData)
 		if err != nil {
@@ -106,24 +119,37 @@ func AppendFullCardNumber(dst []byte, cardNumber *ddv1.FullCardNumber) ([]byte,
 	dst = append(dst, cardTypeByte)
 
 	// Append issuing member state (1 byte)
-	dst = append(dst, byte(cardNumber.GetCardIssuingMemberState()))
+	issuingStateByte, err := MarshalEnum(cardNumber.GetCardIssuingMemberState())
+	if err != nil {
+		return nil, fmt.Errorf("failed to marshal card issuing member state: %w", err)
+	}
+	dst = append(dst, issuingStateByte)
 
 	// Append card number based on card type (16 bytes with padding if needed)
+	cardNumberStart := len(dst)
 	switch cardNumber.GetCardType() {
 	case ddv1.EquipmentType_DRIVER_CARD:
 		if driverID := cardNumber.GetDriverIdentification(); driverID != nil {
-			// DriverIdentification is 14 bytes, pad to 16
+			// DriverIdentification is 14 bytes, followed by the two index bytes
 			dst, err = AppendDriverIdentification(dst, driverID)
 			if err != nil {
 				return nil, fmt.Errorf("failed to append driver identification: %w", err)
 			}
-			// Add 2 bytes padding
-			dst = append(dst, 0x00, 0x00)
+			for _, index := range []*ddv1.Ia5StringValue{driverID.GetCardReplacementIndex(), driverID.GetCardRenewalIndex()} {
+				if index == nil {
+					dst = append(dst, 0x00)
+					continue
+				}
+				dst, err = AppendIa5StringValue(dst, index)
+				if err != nil {
+					return nil, fmt.Errorf("failed to append card number index: %w", err)
+				}
+			}
 		} else {
 			// Empty driver ID: 16 zero bytes
 			dst = append(dst, make([]byte, 16)...)
 		}
-	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_COMPANY_CARD:
+	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_CONTROL_CARD, ddv1.EquipmentType_COMPANY_CARD:
 		if ownerID := cardNumber.GetOwnerIdentification(); ownerID != nil {
 			// OwnerIdentification is 16 bytes (no padding needed)
 			dst, err = AppendOwnerIdentification(dst, ownerID)
@@ -138,6 +164,9 @@ func AppendFullCardNumber(dst []byte, cardNumber *ddv1.FullCardNumber) ([]byte,
 		// Unknown card type: 16 zero bytes
 		dst = append(dst, make([]byte, 16)...)
 	}
+	if got := len(dst) - cardNumberStart; got != 16 {
+		return nil, fmt.Errorf("invalid length of card number: got %d, want 16", got)
+	}
 
 	return dst, nil
 }
@@ -155,7 +184,7 @@ func AppendFullCardNumberAsString(dst []byte, cardNumber *ddv1.FullCardNumber, m
 		if driverID := cardNumber.GetDriverIdentification(); driverID != nil {
 			return AppendIa5StringValue(dst, driverID.GetDriverIdentificationNumber())
 		}
-	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_COMPANY_CARD:
+	case ddv1.EquipmentType_WORKSHOP_CARD, ddv1.EquipmentType_CONTROL_CARD, ddv1.EquipmentType_COMPANY_CARD:
 		if ownerID := cardNumber.GetOwnerIdentification(); ownerID != nil {
 			return AppendIa5StringValue(dst, ownerID.GetOwnerIdentification())
 		}
-- 
2.43.0


From 3b683fce8cdd2cdccdf989cb880430127d98e595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:06 +0000
Subject: [PATCH 14/62] fix: decode the control card number of control activity
 data as a full card number

---
 internal/card/control_activity.go | 62 ++++++++-----------------------
 1 file changed, 16 insertions(+), 46 deletions(-)

diff --git a/internal/card/control_activity.go b/internal/card/control_activity.go
index 3810245..dbf3eb3 100644
--- a/internal/card/control_activity.go
+++ b/internal/card/control_activity.go
@@ -36,7 +36,7 @@ func (opts UnmarshalOptions) unmarshalControlActivityData(data []byte) (*cardv1.
 	controlTime := binary.BigEndian.Uint32(data[1:5])
 	if controlTime == 0 {
 		target.SetValid(false)
-		target.SetRawData(data)
+		target.SetRawData(data[:lenCardControlActivityDataRecord])
 		return &target, nil
 	}
 	target.SetValid(true)
@@ -65,29 +65,22 @@ func (opts UnmarshalOptions) unmarshalControlActivityData(data []byte) (*cardv1.
 	target.SetControlTime(controlTimestamp)
 	offset += 4
 
-	// Read control card number (18 bytes) - this should be parsed as a proper FullCardNumberAndGeneration
-	// For now, create a basic structure - this needs proper protocol parsing
-	fullCardNumberAndGeneration := &ddv1.FullCardNumberAndGeneration{}
-
-	fullCardNumber := &ddv1.FullCardNumber{}
-	fullCardNumber.SetCardType(ddv1.EquipmentType_DRIVER_CARD)
-
-	// Read the card number as IA5 string
+	// Read control card number (18 bytes)
 	if offset+18 > len(data) {
 		return nil, fmt.Errorf("insufficient data for control card number")
 	}
-	cardNumberStr, err := opts.UnmarshalIa5StringValue(data[offset : offset+18])
+	fullCardNumber, err := opts.UnmarshalFullCardNumber(data[offset : offset+18])
 	if err != nil {
-		return nil, fmt.Errorf("failed to read control card number: %w", err)
+		// No card the record could have been written by: preserve it as it is
+		var invalid cardv1.ControlActivityData
+		invalid.SetValid(false)
+		invalid.SetRawData(data[:lenCardControlActivityDataRecord])
+		return &invalid, nil
 	}
 	offset += 18
 
-	// Create driver identification with the card number
-	driverID := &ddv1.DriverIdentification{}
-	driverID.SetDriverIdentificationNumber(cardNumberStr)
-	fullCardNumber.SetDriverIdentification(driverID)
-
 	// Set the full card number in the generation wrapper
+	fullCardNumberAndGeneration := &ddv1.FullCardNumberAndGeneration{}
 	fullCardNumberAndGeneration.SetFullCardNumber(fullCardNumber)
 	// Default to Generation 1 for now - this should be determined from context
 	fullCardNumberAndGeneration.SetGeneration(ddv1.Generation_GENERATION_1)
@@ -160,36 +153,13 @@ func appendCardControlActivityData(data []byte, controlData *cardv1.ControlActiv
 	}
 
 	// Valid record: serialize semantic data
+	var err error
+
 	// Control type (1 byte)
-	controlType := controlData.GetControlType()
-	var controlTypeByte byte
-	if controlType != nil {
-		// Build bitmask from boolean fields
-		// Structure: 'cvpdexxx'B
-		// - 'c': card downloading
-		// - 'v': VU downloading
-		// - 'p': printing
-		// - 'd': display
-		// - 'e': calibration checking
-		if controlType.GetCardDownloading() {
-			controlTypeByte |= 0x80 // bit 7
-		}
-		if controlType.GetVuDownloading() {
-			controlTypeByte |= 0x40 // bit 6
-		}
-		if controlType.GetPrinting() {
-			controlTypeByte |= 0x20 // bit 5
-		}
-		if controlType.GetDisplay() {
-			controlTypeByte |= 0x10 // bit 4
-		}
-		if controlType.GetCalibrationChecking() {
-			controlTypeByte |= 0x08 // bit 3
-		}
+	data, err = dd.AppendControlType(data, controlData.GetControlType())
+	if err != nil {
+		return nil, fmt.Errorf("failed to append control type: %w", err)
 	}
-	data = append(data, controlTypeByte)
-
-	var err error
 
 	// Control time (4 bytes)
 	data, err = dd.AppendTimeReal(data, controlData.GetControlTime())
@@ -198,9 +168,9 @@ func appendCardControlActivityData(data []byte, controlData *cardv1.ControlActiv
 	}
 
 	// Control card number (18 bytes)
-	data, err = dd.AppendFullCardNumberAsString(data, controlData.GetControlCardNumber().GetFullCardNumber(), 18)
+	data, err = dd.AppendFullCardNumber(data, controlData.GetControlCardNumber().GetFullCardNumber())
 	if err != nil {
-		return nil, err
+		return nil, fmt.Errorf("failed to append control card number: %w", err)
 	}
 
 	// Vehicle registration (15 bytes total: 1 byte nation + 14 bytes number)
-- 
2.43.0


From 56825afab8bc37ab1de66e29bca637ece776d98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:00 +0000
Subject: [PATCH 15/62] fix: write text in its code page and keep unknown code
 page bytes

---
 internal/dd/string_value.go | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/internal/dd/string_value.go b/internal/dd/string_value.go
index 0e51253..55662f2 100644
--- a/internal/dd/string_value.go
+++ b/internal/dd/string_value.go
@@ -100,7 +100,10 @@ func AppendStringValue(dst []byte, sv *ddv1.StringValue) ([]byte, error) {
 
 		// Paint only the code page byte at offset 0 (from semantic encoding field)
 		// The string data at offset 1+ is already correct in raw_data
-		canvas[0] = codePage
+		// A code page without an encoding of its own stays as it was.
+		if enc := sv.GetEncoding(); enc != ddv1.Encoding_ENCODING_UNRECOGNIZED || getEncodingFromCodePage(raw[0]) != enc {
+			canvas[0] = codePage
+		}
 
 		// Note: We do NOT re-encode from the value field because:
 		// 1. The value field is UTF-8 (for display), while raw_data is in the original encoding
@@ -198,6 +201,11 @@ func decodeWithCodePage(codePage byte, data []byte) (string, error) {
 		return "", nil
 	}
 
+	return decodeWithCharmap(codePage, charmapForCodePage(codePage), data)
+}
+
+// charmapForCodePage returns the character map that a code page byte selects.
+func charmapForCodePage(codePage byte) *charmap.Charmap {
 	// Map code page to character map
 	var cmap *charmap.Charmap
 	switch codePage {
@@ -231,6 +239,11 @@ func decodeWithCodePage(codePage byte, data []byte) (string, error) {
 		cmap = charmap.ISO8859_1
 	}
 
+	return cmap
+}
+
+// decodeWithCharmap decodes and trims the bytes of a string.
+func decodeWithCharmap(codePage byte, cmap *charmap.Charmap, data []byte) (string, error) {
 	dec := cmap.NewDecoder()
 	res, err := dec.String(string(data))
 	if err != nil {
@@ -291,13 +304,9 @@ func encodeWithCodePage(codePage byte, s string) ([]byte, error) {
 		return []byte{}, nil
 	}
 
-	// For ASCII-compatible code pages (0, 1), we can just convert to bytes
-	// TODO: Implement proper encoding for other code pages using charmap.Encoder
-	if codePage == 0 || codePage == 1 {
-		return []byte(s), nil
+	encoded, err := charmapForCodePage(codePage).NewEncoder().String(s)
+	if err != nil {
+		return nil, fmt.Errorf("could not encode string in code page %d: %w", codePage, err)
 	}
-
-	// For now, fall back to ISO-8859-1 encoding for other code pages
-	// This is a simplification and should be enhanced for full support
-	return []byte(s), nil
+	return []byte(encoded), nil
 }
-- 
2.43.0


From 8e04f1b0f79eb0d9d29407c3e29e8f39546435ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 16/62] fix: reject text that has no code page instead of
 dropping it

---
 internal/dd/string_value.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/dd/string_value.go b/internal/dd/string_value.go
index 55662f2..7694c2d 100644
--- a/internal/dd/string_value.go
+++ b/internal/dd/string_value.go
@@ -301,6 +301,9 @@ func getCodePageFromEncoding(encoding ddv1.Encoding) byte {
 func encodeWithCodePage(codePage byte, s string) ([]byte, error) {
 	// For code page 255 (empty), return empty bytes
 	if codePage == 255 {
+		if s != "" {
+			return nil, fmt.Errorf("no code page to encode string '%s' in", s)
+		}
 		return []byte{}, nil
 	}
 
-- 
2.43.0


From 9856c044595b2af1562efa94f51df5e31853aff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:38 +0000
Subject: [PATCH 17/62] fix: keep date and version bytes that are no decimal
 digits when unchanged

---
 internal/dd/card_structure_version.go | 8 ++++++++
 internal/dd/date.go                   | 8 ++++++++
 internal/dd/month_year.go             | 9 +++++++++
 3 files changed, 25 insertions(+)

diff --git a/internal/dd/card_structure_version.go b/internal/dd/card_structure_version.go
index ccd83be..fc14add 100644
--- a/internal/dd/card_structure_version.go
+++ b/internal/dd/card_structure_version.go
@@ -59,6 +59,14 @@ func AppendCardStructureVersion(dst []byte, csv *ddv1.CardStructureVersion) ([]b
 		}
 		copy(canvas[:], csv.GetRawData())
 	}
+	if csv.HasRawData() {
+		// Preserve bytes that are no decimal digits while the version is unchanged
+		var opts UnmarshalOptions
+		if raw, err := opts.UnmarshalCardStructureVersion(canvas[:]); err == nil &&
+			raw.GetMajor() == csv.GetMajor() && raw.GetMinor() == csv.GetMinor() {
+			return append(dst, canvas[:]...), nil
+		}
+	}
 	major := csv.GetMajor()
 	majorBCD := byte((major/10)<<4) | byte(major%10)
 	canvas[0] = majorBCD
diff --git a/internal/dd/date.go b/internal/dd/date.go
index 1de883c..a5cfeb0 100644
--- a/internal/dd/date.go
+++ b/internal/dd/date.go
@@ -58,6 +58,14 @@ func AppendDate(dst []byte, date *ddv1.Date) ([]byte, error) {
 		}
 		copy(canvas[:], date.GetRawData())
 	}
+	if date.HasRawData() {
+		// Preserve bytes that are no decimal digits while the date is unchanged
+		var opts UnmarshalOptions
+		if raw, err := opts.UnmarshalDate(canvas[:]); err == nil &&
+			raw.GetYear() == date.GetYear() && raw.GetMonth() == date.GetMonth() && raw.GetDay() == date.GetDay() {
+			return append(dst, canvas[:]...), nil
+		}
+	}
 	year := int(date.GetYear())
 	month := int(date.GetMonth())
 	day := int(date.GetDay())
diff --git a/internal/dd/month_year.go b/internal/dd/month_year.go
index 5b1ff41..c9d0d7c 100644
--- a/internal/dd/month_year.go
+++ b/internal/dd/month_year.go
@@ -74,6 +74,15 @@ func AppendMonthYear(dst []byte, monthYear *ddv1.MonthYear) ([]byte, error) {
 	}
 	// Otherwise canvas is zero-initialized (Go default)
 
+	// Preserve bytes that are no decimal digits while month and year are unchanged
+	if monthYear.HasRawData() {
+		var opts UnmarshalOptions
+		if raw, err := opts.UnmarshalMonthYear(canvas[:]); err == nil &&
+			raw.GetMonth() == monthYear.GetMonth() && raw.GetYear() == monthYear.GetYear() {
+			return append(dst, canvas[:]...), nil
+		}
+	}
+
 	// Paint semantic values over the canvas
 	month := monthYear.GetMonth()
 	year := monthYear.GetYear()
-- 
2.43.0


From 3d9c34cabdded04982377acfb56243af7112bb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 18/62] fix: keep vehicle identification numbers valid text and
 their padding as stored

---
 internal/dd/card_vehicle_record_g2.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/dd/card_vehicle_record_g2.go b/internal/dd/card_vehicle_record_g2.go
index f466497..357517b 100644
--- a/internal/dd/card_vehicle_record_g2.go
+++ b/internal/dd/card_vehicle_record_g2.go
@@ -4,6 +4,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"strings"
+	"unicode/utf8"
 
 	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
 )
@@ -83,6 +84,7 @@ func (opts UnmarshalOptions) UnmarshalCardVehicleRecordG2(data []byte) (*ddv1.Ca
 	// Parse VIN (17 bytes IA5String)
 	vinBytes := data[idxVIN : idxVIN+17]
 	vin := strings.TrimRight(string(vinBytes), "\x00 ") // Trim null bytes and spaces
+	vin = strings.ToValidUTF8(vin, string(utf8.RuneError))
 	record.SetVehicleIdentificationNumber(vin)
 
 	return record, nil
@@ -146,6 +148,13 @@ func AppendCardVehicleRecordG2(dst []byte, record *ddv1.CardVehicleRecordG2) ([]
 
 	// VIN (17 bytes IA5String)
 	vin := record.GetVehicleIdentificationNumber()
+	if rawVin := strings.TrimRight(string(canvas[31:48]), "\x00 "); len(record.GetRawData()) > 0 && vin == strings.ToValidUTF8(rawVin, string(utf8.RuneError)) {
+		// Unchanged: keep the original padding
+		return append(dst, canvas[:]...), nil
+	}
+	if len(vin) > 17 {
+		return nil, fmt.Errorf("vehicle identification number '%s' is longer than 17 bytes", vin)
+	}
 	vinBytes := make([]byte, 17)
 	copy(vinBytes, []byte(vin))
 	// Pad with spaces if shorter than 17 bytes
-- 
2.43.0


From dbfabdd3169bda14d09feda655b584547c06e10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 19/62] fix: read driver card numbers with letters as
 replacement or renewal index

---
 internal/card/identification.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/card/identification.go b/internal/card/identification.go
index fd549cc..58c3b9d 100644
--- a/internal/card/identification.go
+++ b/internal/card/identification.go
@@ -91,7 +91,9 @@ func (opts UnmarshalOptions) unmarshalIdentification(data []byte) (*cardv1.Ident
 		// Check if bytes 14 and 15 are single digits (0-9)
 		replacementByte := cardNumberData[14]
 		renewalByte := cardNumberData[15]
-		if replacementByte >= '0' && replacementByte <= '9' && renewalByte >= '0' && renewalByte <= '9' {
+		// (the regulation counts the indices 0 to 9, then A to Z)
+		isIndex := func(b byte) bool { return b >= '0' && b <= '9' || b >= 'A' && b <= 'Z' }
+		if isIndex(replacementByte) && isIndex(renewalByte) {
 			// This looks like a driver card format
 			driverID := &ddv1.DriverIdentification{}
 			driverID.SetDriverIdentificationNumber(driverIdentification)
-- 
2.43.0


From a9a43ee131c2537e27d64e67e536363e14a47091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:06 +0000
Subject: [PATCH 20/62] fix: keep the padding of card numbers in the
 identification file

---
 internal/card/identification.go | 40 +++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/internal/card/identification.go b/internal/card/identification.go
index 58c3b9d..b37aec2 100644
--- a/internal/card/identification.go
+++ b/internal/card/identification.go
@@ -398,6 +398,9 @@ func appendCardIdentification(dst []byte, id *cardv1.Identification_Card) ([]byt
 			}
 		}
 	}
+	if err := paintCardNumber(cardNumberBytes, id); err != nil {
+		return nil, err
+	}
 	dst = append(dst, cardNumberBytes...)
 	dst, err = dd.AppendStringValue(dst, id.GetCardIssuingAuthorityName())
 	if err != nil {
@@ -418,6 +421,43 @@ func appendCardIdentification(dst []byte, id *cardv1.Identification_Card) ([]byt
 	return dst, nil
 }
 
+// paintCardNumber puts back the original bytes of the parts of a card number
+// whose value is unchanged, and rejects parts that do not fit.
+func paintCardNumber(cardNumber []byte, id *cardv1.Identification_Card) error {
+	type part struct {
+		start, end int
+		value      *ddv1.Ia5StringValue
+	}
+	var parts []part
+	if driverID := id.GetDriverIdentification(); driverID != nil {
+		parts = []part{
+			{0, 14, driverID.GetDriverIdentificationNumber()},
+			{14, 15, driverID.GetCardReplacementIndex()},
+			{15, 16, driverID.GetCardRenewalIndex()},
+		}
+	} else if ownerID := id.GetOwnerIdentification(); ownerID != nil {
+		parts = []part{
+			{0, 13, ownerID.GetOwnerIdentification()},
+			{13, 14, ownerID.GetConsecutiveIndex()},
+			{14, 15, ownerID.GetReplacementIndex()},
+			{15, 16, ownerID.GetRenewalIndex()},
+		}
+	}
+	for _, p := range parts {
+		if raw := p.value.GetRawData(); len(raw) == p.end-p.start {
+			var opts dd.UnmarshalOptions
+			if original, err := opts.UnmarshalIa5StringValue(raw); err == nil && original.GetValue() == p.value.GetValue() {
+				copy(cardNumber[p.start:p.end], raw)
+				continue
+			}
+		}
+		if len(p.value.GetValue()) > p.end-p.start {
+			return fmt.Errorf("card number part '%s' is longer than %d bytes", p.value.GetValue(), p.end-p.start)
+		}
+	}
+	return nil
+}
+
 // AppendDriverCardHolderIdentification appends the binary representation of DriverCardHolderIdentification to dst.
 //
 // The data type `DriverCardHolderIdentification` is specified in the Data Dictionary, Section 2.1.
-- 
2.43.0


From b8881c551168ff45efd7d6111334ce4f2d991ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:11 +0000
Subject: [PATCH 21/62] fix: report the break from midnight of driver activity
 records

---
 internal/card/activity.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/card/activity.go b/internal/card/activity.go
index 061c706..4e7c6ac 100644
--- a/internal/card/activity.go
+++ b/internal/card/activity.go
@@ -178,9 +178,9 @@ func (opts UnmarshalOptions) parseSingleActivityDailyRecord(data []byte) (*cardv
 	var activityChanges []*ddv1.ActivityChangeInfo
 
 	for offset+2 <= len(data) {
-		// Check for invalid entries before parsing (all zeros or all ones)
+		// Check for invalid entries before parsing (all ones; all zeros is a break of the driver from 00:00)
 		changeData := binary.BigEndian.Uint16(data[offset : offset+2])
-		if changeData == 0 || changeData == 0xFFFF {
+		if changeData == 0xFFFF {
 			offset += 2
 			continue
 		}
-- 
2.43.0


From 4edeb10e7292830cb05330f00827c8ea56cd0d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:38 +0000
Subject: [PATCH 22/62] fix: follow driver activity records whose header wraps
 around the buffer end

---
 internal/card/activity.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/internal/card/activity.go b/internal/card/activity.go
index 4e7c6ac..fc04f56 100644
--- a/internal/card/activity.go
+++ b/internal/card/activity.go
@@ -295,12 +295,17 @@ func (it *cyclicRecordIterator) Next() bool {
 		return false // No data to parse
 	}
 	// Validate current position for reading header
-	if it.currentPos < 0 || it.currentPos+4 > len(it.buffer) {
+	if it.currentPos < 0 || it.currentPos >= len(it.buffer) {
 		return false // Invalid position for header
 	}
 	// Read record header (4 bytes: prevRecordLength + currentRecordLength)
-	prevRecordLength := int(binary.BigEndian.Uint16(it.buffer[it.currentPos : it.currentPos+2]))
-	currentRecordLength := int(binary.BigEndian.Uint16(it.buffer[it.currentPos+2 : it.currentPos+4]))
+	// Like any other part of a record, the header may be broken over the end of the buffer
+	var header [4]byte
+	for i := range header {
+		header[i] = it.buffer[(it.currentPos+i)%len(it.buffer)]
+	}
+	prevRecordLength := int(binary.BigEndian.Uint16(header[0:2]))
+	currentRecordLength := int(binary.BigEndian.Uint16(header[2:4]))
 	if currentRecordLength == 0 {
 		return false // Zero-length record signifies end of chain
 	}
-- 
2.43.0


From 1b9a79ddbf5317bb90b5e44a2af2841f8dd20301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 23/62] fix: bound the driver activity walk by the buffer size
 instead of 366 records

---
 internal/card/activity.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/internal/card/activity.go b/internal/card/activity.go
index fc04f56..b57e9d3 100644
--- a/internal/card/activity.go
+++ b/internal/card/activity.go
@@ -262,6 +262,7 @@ type cyclicRecordIterator struct {
 	buffer      []byte
 	currentPos  int
 	recordCount int
+	walked      int // total length of the records seen
 	err         error
 
 	// Current record state
@@ -283,14 +284,9 @@ func NewCyclicRecordIterator(buffer []byte, startPos int) *cyclicRecordIterator
 // Returns true if a record was found, false if end of chain or error.
 // The iterator traverses backwards from newest to oldest record.
 func (it *cyclicRecordIterator) Next() bool {
-	const maxRecords = 366 // Safety limit to prevent infinite loops (max days per year + 1)
 	if it.err != nil {
 		return false
 	}
-	if it.recordCount >= maxRecords {
-		it.err = fmt.Errorf("exceeded maximum record count (%d), possible infinite loop", maxRecords)
-		return false
-	}
 	if len(it.buffer) == 0 {
 		return false // No data to parse
 	}
@@ -314,6 +310,12 @@ func (it *cyclicRecordIterator) Next() bool {
 		it.err = fmt.Errorf("invalid record length %d at position %d", currentRecordLength, it.currentPos)
 		return false
 	}
+	// The records of a sound chain do not overlap: walking over more bytes than there are is an infinite loop
+	it.walked += currentRecordLength
+	if it.walked > len(it.buffer) {
+		it.err = fmt.Errorf("records of more than %d bytes, possible infinite loop at position %d", len(it.buffer), it.currentPos)
+		return false
+	}
 	// Store current record information
 	it.recordStart = it.currentPos
 	it.recordLength = currentRecordLength
-- 
2.43.0


From 071e2e4eca75a74c0c0a3220d93cf2d0d2fb88a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:21 +0000
Subject: [PATCH 24/62] fix: build activity buffers their pointers and record
 lengths agree with

---
 internal/card/activity.go | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/internal/card/activity.go b/internal/card/activity.go
index b57e9d3..f7e05a2 100644
--- a/internal/card/activity.go
+++ b/internal/card/activity.go
@@ -231,9 +231,25 @@ func appendDriverActivity(dst []byte, activity *cardv1.DriverActivityData) ([]by
 		return dst, nil
 	}
 
+	// A buffer built from scratch has its first record at its start
+	oldest, newest := activity.GetOldestDayRecordIndex(), activity.GetNewestDayRecordIndex()
+	if records := activity.GetDailyRecords(); len(activity.GetRawData()) == 0 && len(records) > 0 {
+		oldest, newest = 0, 0
+		for _, rec := range records[:len(records)-1] {
+			size := len(rec.GetRawData())
+			if rec.GetValid() {
+				var err error
+				if size, err = calculateRecordSize(rec); err != nil {
+					return nil, fmt.Errorf("failed to calculate record size: %w", err)
+				}
+			}
+			newest += int32(size)
+		}
+	}
+
 	// Append header (pointers)
-	dst = binary.BigEndian.AppendUint16(dst, uint16(activity.GetOldestDayRecordIndex()))
-	dst = binary.BigEndian.AppendUint16(dst, uint16(activity.GetNewestDayRecordIndex()))
+	dst = binary.BigEndian.AppendUint16(dst, uint16(oldest))
+	dst = binary.BigEndian.AppendUint16(dst, uint16(newest))
 
 	// For perfect round-trip fidelity, use raw buffer directly when available.
 	// This preserves all padding, reserved bits, and linked-list structure.
@@ -449,9 +465,7 @@ func buildCyclicBufferFromRecords(records []*cardv1.DriverActivityData_DailyReco
 // Otherwise, we calculate from content.
 func calculateRecordSize(rec *cardv1.DriverActivityData_DailyRecord) (int, error) {
 	// Use original record length if available (preserves padding)
-	if recordLength := rec.GetActivityRecordLength(); recordLength > 0 {
-		return int(recordLength), nil
-	}
+	recordLength := int(rec.GetActivityRecordLength())
 
 	// Fallback: calculate from content
 	const (
@@ -465,7 +479,7 @@ func calculateRecordSize(rec *cardv1.DriverActivityData_DailyRecord) (int, error
 	size := lenHeader + lenTimeReal + lenDailyPresenceCounter + lenDayDistance
 	size += len(rec.GetActivityChangeInfo()) * lenActivityChangeInfo
 
-	return size, nil
+	return max(size, recordLength), nil
 }
 
 // marshalRecordWithHeader marshals a single activity record with the correct header values.
@@ -502,7 +516,8 @@ func marshalRecordWithHeader(rec *cardv1.DriverActivityData_DailyRecord, prevRec
 	// Add padding if the current length is less than the expected record length
 	// This preserves any padding bytes that were in the original record
 	if len(buf) < currentRecordLength {
-		padding := make([]byte, currentRecordLength-len(buf))
+		// (entries of all ones are no activity changes, zeros would be)
+		padding := bytes.Repeat([]byte{0xFF}, currentRecordLength-len(buf))
 		buf = append(buf, padding...)
 	}
 
-- 
2.43.0


From 9e3da09327165648e01692b358a7dae634660064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 25/62] fix: write edited daily activity records over the
 preserved buffer

---
 internal/card/activity.go | 53 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 52 insertions(+), 1 deletion(-)

diff --git a/internal/card/activity.go b/internal/card/activity.go
index f7e05a2..c143741 100644
--- a/internal/card/activity.go
+++ b/internal/card/activity.go
@@ -9,6 +9,7 @@ import (
 
 	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
 	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
+	"google.golang.org/protobuf/proto"
 )
 
 // unmarshalDriverActivityData unmarshals driver activity data from a card EF.
@@ -254,7 +255,11 @@ func appendDriverActivity(dst []byte, activity *cardv1.DriverActivityData) ([]by
 	// For perfect round-trip fidelity, use raw buffer directly when available.
 	// This preserves all padding, reserved bits, and linked-list structure.
 	if rawBuffer := activity.GetRawData(); len(rawBuffer) > 0 {
-		dst = append(dst, rawBuffer...)
+		buffer, err := paintActivityRecords(rawBuffer, int(newest), activity.GetDailyRecords())
+		if err != nil {
+			return nil, fmt.Errorf("failed to write daily records: %w", err)
+		}
+		dst = append(dst, buffer...)
 	} else {
 		// Fallback: Build cyclic buffer from scratch with proper linked-list structure
 		buffer, err := buildCyclicBufferFromRecords(activity.GetDailyRecords(), int(activity.GetNewestDayRecordIndex()))
@@ -267,6 +272,49 @@ func appendDriverActivity(dst []byte, activity *cardv1.DriverActivityData) ([]by
 	return dst, nil
 }
 
+// paintActivityRecords writes the daily records that differ from those in the
+// cyclic buffer over their original positions, and preserves everything else.
+func paintActivityRecords(rawBuffer []byte, newest int, records []*cardv1.DriverActivityData_DailyRecord) ([]byte, error) {
+	var opts UnmarshalOptions
+	buffer := bytes.Clone(rawBuffer)
+	next := len(records) // the walk goes from the newest record to the oldest
+	iterator := NewCyclicRecordIterator(rawBuffer, newest)
+	for iterator.Next() {
+		recordBytes, position, length := iterator.Record()
+		next--
+		if next < 0 {
+			return nil, fmt.Errorf("raw data holds more than the %d daily records, clear it to remove records", len(records))
+		}
+		record := records[next]
+		painted := record.GetRawData()
+		if record.GetValid() {
+			original, err := opts.parseSingleActivityDailyRecord(recordBytes)
+			if err == nil {
+				original.ClearRawData()
+				unpainted := proto.CloneOf(record)
+				unpainted.ClearRawData()
+				if proto.Equal(original, unpainted) {
+					continue
+				}
+			}
+			painted, err = marshalRecordWithHeader(record, int(record.GetActivityPreviousRecordLength()), length)
+			if err != nil {
+				return nil, fmt.Errorf("failed to marshal record %d: %w", next, err)
+			}
+		}
+		if len(painted) != length {
+			return nil, fmt.Errorf("daily record %d has %d bytes instead of %d, clear raw data to resize records", next, len(painted), length)
+		}
+		for i, b := range painted {
+			buffer[(position+i)%len(buffer)] = b
+		}
+	}
+	if next != 0 && iterator.Err() == nil {
+		return nil, fmt.Errorf("raw data holds fewer than the %d daily records, clear it to add records", len(records))
+	}
+	return buffer, nil
+}
+
 // cyclicRecordIterator provides a clean interface for traversing the cyclic buffer
 // of daily activity records, separating the complex pointer-following logic
 // from the parsing of individual records.
@@ -498,6 +546,9 @@ func marshalRecordWithHeader(rec *cardv1.DriverActivityData_DailyRecord, prevRec
 		return nil, fmt.Errorf("failed to append activity record date: %w", err)
 	}
 
+	if counter := rec.GetActivityDailyPresenceCounter(); counter.GetLength() != 2 {
+		return nil, fmt.Errorf("activity daily presence counter has %d bytes, want 2", counter.GetLength())
+	}
 	buf, err = dd.AppendBcdString(buf, rec.GetActivityDailyPresenceCounter())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append activity daily presence counter: %w", err)
-- 
2.43.0


From 51f2b5f22cc0a024df6827c0f0d6fa5b3a066c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:37 +0000
Subject: [PATCH 26/62] fix: end the activity walk at records that overlap or
 repeat newer ones

---
 internal/card/activity.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/internal/card/activity.go b/internal/card/activity.go
index c143741..3348443 100644
--- a/internal/card/activity.go
+++ b/internal/card/activity.go
@@ -326,9 +326,11 @@ type cyclicRecordIterator struct {
 	buffer      []byte
 	currentPos  int
 	recordCount int
-	walked      int // total length of the records seen
 	err         error
 
+	walked         int // total length of the records seen
+	previousLength int // length of the record before the current one
+
 	// Current record state
 	recordStart  int
 	recordLength int
@@ -374,8 +376,15 @@ func (it *cyclicRecordIterator) Next() bool {
 		it.err = fmt.Errorf("invalid record length %d at position %d", currentRecordLength, it.currentPos)
 		return false
 	}
-	// The records of a sound chain do not overlap: walking over more bytes than there are is an infinite loop
-	it.walked += currentRecordLength
+	// The records of a sound chain do not overlap
+	if it.recordCount > 0 && currentRecordLength > it.previousLength {
+		it.err = fmt.Errorf("record length %d at position %d exceeds the previous record length %d", currentRecordLength, it.currentPos, it.previousLength)
+		return false
+	}
+	// Walking over more bytes than there are is an infinite loop
+	if it.recordCount == 0 {
+		it.walked = currentRecordLength
+	}
 	if it.walked > len(it.buffer) {
 		it.err = fmt.Errorf("records of more than %d bytes, possible infinite loop at position %d", len(it.buffer), it.currentPos)
 		return false
@@ -389,6 +398,8 @@ func (it *cyclicRecordIterator) Next() bool {
 		it.recordBytes[i] = it.buffer[(it.currentPos+i)%len(it.buffer)]
 	}
 	it.recordCount++
+	it.walked += prevRecordLength
+	it.previousLength = prevRecordLength
 	// Move to previous record for next iteration
 	if prevRecordLength == 0 {
 		// End of chain marker - no more records
-- 
2.43.0


From 6f4c61b021b26e6dbe12e6e39d7b25014385de67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:54 +0000
Subject: [PATCH 27/62] fix: report the card types of the vehicle unit slots by
 their codes

---
 internal/vu/overview_gen1.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/vu/overview_gen1.go b/internal/vu/overview_gen1.go
index 59f1884..02eb78f 100644
--- a/internal/vu/overview_gen1.go
+++ b/internal/vu/overview_gen1.go
@@ -137,8 +137,14 @@ func unmarshalOverviewGen1(value []byte) (*vuv1.OverviewGen1, error) {
 		return nil, fmt.Errorf("insufficient data for CardSlotsStatus")
 	}
 	cardSlotsStatus := value[offset]
-	driverSlot := ddv1.SlotCardType(cardSlotsStatus & 0x0F)
-	coDriverSlot := ddv1.SlotCardType((cardSlotsStatus >> 4) & 0x0F)
+	driverSlot, err := dd.UnmarshalEnum[ddv1.SlotCardType](cardSlotsStatus & 0x0F)
+	if err != nil {
+		driverSlot = ddv1.SlotCardType_SLOT_CARD_TYPE_UNRECOGNIZED
+	}
+	coDriverSlot, err := dd.UnmarshalEnum[ddv1.SlotCardType]((cardSlotsStatus >> 4) & 0x0F)
+	if err != nil {
+		coDriverSlot = ddv1.SlotCardType_SLOT_CARD_TYPE_UNRECOGNIZED
+	}
 	overview.SetDriverSlotCard(driverSlot)
 	overview.SetCoDriverSlotCard(coDriverSlot)
 	offset += 1
-- 
2.43.0


From bccb4542fac59014077ad9ed21f75b2045999231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 28/62] fix: accept places with unrecognised codes in vehicle
 unit activities

---
 internal/vu/activities_gen1.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/vu/activities_gen1.go b/internal/vu/activities_gen1.go
index 0c280b5..e77bfb5 100644
--- a/internal/vu/activities_gen1.go
+++ b/internal/vu/activities_gen1.go
@@ -165,7 +165,7 @@ func unmarshalActivitiesGen1(value []byte) (*vuv1.ActivitiesGen1, error) {
 		// entryTypeDailyWorkPeriod (1 byte)
 		entryType, err := dd.UnmarshalEnum[ddv1.EntryTypeDailyWorkPeriod](value[offset+recordOffset])
 		if err != nil {
-			return nil, fmt.Errorf("unmarshal entry type: %w", err)
+			entryType = ddv1.EntryTypeDailyWorkPeriod_ENTRY_TYPE_DAILY_WORK_PERIOD_UNRECOGNIZED
 		}
 		record.SetEntryType(entryType)
 		recordOffset += 1
@@ -173,7 +173,7 @@ func unmarshalActivitiesGen1(value []byte) (*vuv1.ActivitiesGen1, error) {
 		// dailyWorkPeriodCountry (1 byte)
 		country, err := dd.UnmarshalEnum[ddv1.NationNumeric](value[offset+recordOffset])
 		if err != nil {
-			return nil, fmt.Errorf("unmarshal country: %w", err)
+			country = ddv1.NationNumeric_NATION_NUMERIC_UNRECOGNIZED
 		}
 		record.SetCountry(country)
 		recordOffset += 1
-- 
2.43.0


From 7d61912cea7693d1541583f381334db036971ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:03 +0000
Subject: [PATCH 29/62] fix: report the download interface version of vehicle
 unit files

---
 internal/vu/download_interface_version.go | 17 +++++++++++++++++
 internal/vu/vehicle_unit_file.go          |  8 +++++---
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/internal/vu/download_interface_version.go b/internal/vu/download_interface_version.go
index 69d6dcb..3c7067c 100644
--- a/internal/vu/download_interface_version.go
+++ b/internal/vu/download_interface_version.go
@@ -3,6 +3,7 @@ package vu
 import (
 	"fmt"
 
+	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
 	vuv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/vu/v1"
 )
 
@@ -38,3 +39,19 @@ func sizeOfDownloadInterfaceVersion(data []byte, transferType vuv1.TransferType)
 // ASN.1 Definition:
 //
 //	DownloadInterfaceVersion ::= OCTET STRING (SIZE (2))
+func unmarshalDownloadInterfaceVersion(value []byte) (*vuv1.DownloadInterfaceVersion, error) {
+	const lenDownloadInterfaceVersion = 2
+	if len(value) != lenDownloadInterfaceVersion {
+		return nil, fmt.Errorf("invalid data length for DownloadInterfaceVersion: got %d, want %d", len(value), lenDownloadInterfaceVersion)
+	}
+	version := &vuv1.DownloadInterfaceVersion{}
+	version.SetRawData(value)
+	// The data dictionary assigns 01 01 to version 2 of Generation 2, Appendix 7 assigns 02 02
+	if value[0] == 0x01 || value[0] == 0x02 {
+		version.SetGeneration(ddv1.Generation_GENERATION_2)
+	}
+	if value[1] == 0x01 || value[1] == 0x02 {
+		version.SetVersion(ddv1.Version_VERSION_2)
+	}
+	return version, nil
+}
diff --git a/internal/vu/vehicle_unit_file.go b/internal/vu/vehicle_unit_file.go
index c0396e9..e85b6b4 100644
--- a/internal/vu/vehicle_unit_file.go
+++ b/internal/vu/vehicle_unit_file.go
@@ -219,9 +219,11 @@ func unmarshalVehicleUnitFileGen2V2(rawFile *vuv1.RawVehicleUnitFile) (*vuv1.Veh
 	for _, record := range rawFile.GetRecords() {
 		switch record.GetType() {
 		case vuv1.TransferType_DOWNLOAD_INTERFACE_VERSION:
-			// Download interface version can be parsed if needed
-			// For now, skip as it's mainly used for version detection
-			// output.SetDownloadInterfaceVersion(...)
+			downloadInterfaceVersion, err := unmarshalDownloadInterfaceVersion(record.GetValue())
+			if err != nil {
+				return nil, fmt.Errorf("unmarshal Download Interface Version: %w", err)
+			}
+			output.SetDownloadInterfaceVersion(downloadInterfaceVersion)
 
 		case vuv1.TransferType_OVERVIEW_GEN2_V2:
 			overview, err := unmarshalOverviewGen2V2(record.GetValue())
-- 
2.43.0


From 563423d8102dbe50378d00d76f740e8b83f5c7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:09 +0000
Subject: [PATCH 30/62] fix: reject repeated overviews of vehicle unit files
 instead of dropping them

---
 internal/vu/vehicle_unit_file.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/vu/vehicle_unit_file.go b/internal/vu/vehicle_unit_file.go
index e85b6b4..5e86f91 100644
--- a/internal/vu/vehicle_unit_file.go
+++ b/internal/vu/vehicle_unit_file.go
@@ -121,6 +121,9 @@ func unmarshalVehicleUnitFileGen1(rawFile *vuv1.RawVehicleUnitFile) (*vuv1.Vehic
 	for _, record := range rawFile.GetRecords() {
 		switch record.GetType() {
 		case vuv1.TransferType_OVERVIEW_GEN1:
+			if output.HasOverview() {
+				return nil, fmt.Errorf("more than one Overview Gen1")
+			}
 			overview, err := unmarshalOverviewGen1(record.GetValue())
 			if err != nil {
 				return nil, fmt.Errorf("unmarshal Overview Gen1: %w", err)
@@ -170,6 +173,9 @@ func unmarshalVehicleUnitFileGen2V1(rawFile *vuv1.RawVehicleUnitFile) (*vuv1.Veh
 	for _, record := range rawFile.GetRecords() {
 		switch record.GetType() {
 		case vuv1.TransferType_OVERVIEW_GEN2_V1:
+			if output.HasOverview() {
+				return nil, fmt.Errorf("more than one Overview Gen2 V1")
+			}
 			overview, err := unmarshalOverviewGen2V1(record.GetValue())
 			if err != nil {
 				return nil, fmt.Errorf("unmarshal Overview Gen2 V1: %w", err)
@@ -219,6 +225,9 @@ func unmarshalVehicleUnitFileGen2V2(rawFile *vuv1.RawVehicleUnitFile) (*vuv1.Veh
 	for _, record := range rawFile.GetRecords() {
 		switch record.GetType() {
 		case vuv1.TransferType_DOWNLOAD_INTERFACE_VERSION:
+			if output.HasDownloadInterfaceVersion() {
+				return nil, fmt.Errorf("more than one Download Interface Version")
+			}
 			downloadInterfaceVersion, err := unmarshalDownloadInterfaceVersion(record.GetValue())
 			if err != nil {
 				return nil, fmt.Errorf("unmarshal Download Interface Version: %w", err)
@@ -226,6 +235,9 @@ func unmarshalVehicleUnitFileGen2V2(rawFile *vuv1.RawVehicleUnitFile) (*vuv1.Veh
 			output.SetDownloadInterfaceVersion(downloadInterfaceVersion)
 
 		case vuv1.TransferType_OVERVIEW_GEN2_V2:
+			if output.HasOverview() {
+				return nil, fmt.Errorf("more than one Overview Gen2 V2")
+			}
 			overview, err := unmarshalOverviewGen2V2(record.GetValue())
 			if err != nil {
 				return nil, fmt.Errorf("unmarshal Overview Gen2 V2: %w", err)
-- 
2.43.0


From aaf157ccc8dd37c9112f18f9b80f909c09c84d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:46 +0000
Subject: [PATCH 31/62] fix: do not take company cards for driver cards

---
 .../connect/tachograph/card/v1/card_type.pb.go         | 10 +++++-----
 .../connect/tachograph/card/v1/card_type.proto         |  4 ----
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/proto/gen/go/wayplatform/connect/tachograph/card/v1/card_type.pb.go b/proto/gen/go/wayplatform/connect/tachograph/card/v1/card_type.pb.go
index da2faa8..e6ae1f9 100644
--- a/proto/gen/go/wayplatform/connect/tachograph/card/v1/card_type.pb.go
+++ b/proto/gen/go/wayplatform/connect/tachograph/card/v1/card_type.pb.go
@@ -119,12 +119,12 @@ var File_wayplatform_connect_tachograph_card_v1_card_type_proto protoreflect.Fil
 
 const file_wayplatform_connect_tachograph_card_v1_card_type_proto_rawDesc = "" +
 	"\n" +
-	"6wayplatform/connect/tachograph/card/v1/card_type.proto\x12&wayplatform.connect.tachograph.card.v1\x1a;wayplatform/connect/tachograph/card/v1/file_structure.proto*\xde\b\n" +
+	"6wayplatform/connect/tachograph/card/v1/card_type.proto\x12&wayplatform.connect.tachograph.card.v1\x1a;wayplatform/connect/tachograph/card/v1/file_structure.proto*\xd8\b\n" +
 	"\bCardType\x12\x19\n" +
-	"\x15CARD_TYPE_UNSPECIFIED\x10\x00\x12\xc6\x02\n" +
-	"\vDRIVER_CARD\x10\x01\x1a\xb4\x02\xf2\xc7\x18\xaf\x02\b\x01\"\x04\b\x03\x10\x01\"\x04\b\x03\x10\x02\"\x04\b\x03\x10!\"\x06\b\x03\x10\x04(\x01\"\x06\b\x03\x10\x05(\x01\"X\b\x02\x18\x01\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10%\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x13\"\x04\b\x03\x10\x15\"\x04\b\x03\x10\a\"\x04\b\x03\x10\b\"\x04\b\x03\x10\t\"\x04\b\x03\x10\n" +
-	"\"\x04\b\x03\x10\v\"\x04\b\x03\x10\f\"\x04\b\x03\x10\r\"\x04\b\x03\x10\x16\"\xae\x01\b\x02\x18\x02\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10$\"\x04\b\x03\x10%\"\x04\b\x03\x10&\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x13\"\x04\b\x03\x10\x15\"\x04\b\x03\x10\a\"\x04\b\x03\x10\b\"\x04\b\x03\x10\t\"\x04\b\x03\x10\n" +
-	"\"\x04\b\x03\x10\v\"\x04\b\x03\x10\f\"\x04\b\x03\x10\r\"\x04\b\x03\x10\x16\"\x04\b\x03\x10\x17\"\x04\b\x03\x10\x12\"\x04\b\x03\x10\x18\"\x06\b\x03\x10\x19(\x01\"\x06\b\x03\x10\x1a(\x01\"\x06\b\x03\x10\x1b(\x01\"\x06\b\x03\x10\x1c(\x01\"\x06\b\x03\x10\x1d(\x01\"\x06\b\x03\x10\x1e(\x01\"\x06\b\x03\x10 (\x01\x12\xdc\x02\n" +
+	"\x15CARD_TYPE_UNSPECIFIED\x10\x00\x12\xc0\x02\n" +
+	"\vDRIVER_CARD\x10\x01\x1a\xae\x02\xf2\xc7\x18\xa9\x02\b\x01\"\x04\b\x03\x10\x01\"\x04\b\x03\x10\x02\"\x04\b\x03\x10!\"\x06\b\x03\x10\x04(\x01\"\x06\b\x03\x10\x05(\x01\"X\b\x02\x18\x01\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10%\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x13\"\x04\b\x03\x10\x15\"\x04\b\x03\x10\a\"\x04\b\x03\x10\b\"\x04\b\x03\x10\t\"\x04\b\x03\x10\n" +
+	"\"\x04\b\x03\x10\v\"\x04\b\x03\x10\f\"\x04\b\x03\x10\r\"\x04\b\x03\x10\x16\"\xa8\x01\b\x02\x18\x02\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10$\"\x04\b\x03\x10%\"\x04\b\x03\x10&\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x13\"\x04\b\x03\x10\x15\"\x04\b\x03\x10\a\"\x04\b\x03\x10\b\"\x04\b\x03\x10\t\"\x04\b\x03\x10\n" +
+	"\"\x04\b\x03\x10\v\"\x04\b\x03\x10\f\"\x04\b\x03\x10\r\"\x04\b\x03\x10\x16\"\x04\b\x03\x10\x17\"\x04\b\x03\x10\x18\"\x06\b\x03\x10\x19(\x01\"\x06\b\x03\x10\x1a(\x01\"\x06\b\x03\x10\x1b(\x01\"\x06\b\x03\x10\x1c(\x01\"\x06\b\x03\x10\x1d(\x01\"\x06\b\x03\x10\x1e(\x01\"\x06\b\x03\x10 (\x01\x12\xdc\x02\n" +
 	"\rWORKSHOP_CARD\x10\x02\x1a\xc8\x02\xf2\xc7\x18\xc3\x02\b\x01\"\x04\b\x03\x10\x01\"\x04\b\x03\x10\x02\"\x04\b\x03\x10!\"\x06\b\x03\x10\x04(\x01\"\x06\b\x03\x10\x05(\x01\"^\b\x02\x18\x01\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10%\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x0e\"\x04\b\x03\x10\x0f\"\x04\b\x03\x10\x10\"\x04\b\x03\x10\a\"\x04\b\x03\x10\b\"\x04\b\x03\x10\t\"\x04\b\x03\x10\n" +
 	"\"\x04\b\x03\x10\v\"\x04\b\x03\x10\f\"\x04\b\x03\x10\r\"\x04\b\x03\x10\x16\"\xbc\x01\b\x02\x18\x02\"\x04\b\x03\x10\x06\"\x04\b\x03\x10\"\"\x04\b\x03\x10$\"\x04\b\x03\x10%\"\x04\b\x03\x10&\"\x04\b\x03\x10\x14\"\x04\b\x03\x10\x0e\"\x04\b\x03\x10\x0f\"\x04\b\x03\x10\x10\"\x04\b\x03\x10\a\"\x04\b\x03\x10\b\"\x04\b\x03\x10\t\"\x04\b\x03\x10\n" +
 	"\"\x04\b\x03\x10\v\"\x04\b\x03\x10\f\"\x04\b\x03\x10\r\"\x04\b\x03\x10\x16\"\x04\b\x03\x10\x17\"\x04\b\x03\x10\x12\"\x04\b\x03\x10\x18\"\x06\b\x03\x10\x19(\x01\"\x06\b\x03\x10\x1a(\x01\"\x06\b\x03\x10\x1b(\x01\"\x06\b\x03\x10\x1c(\x01\"\x06\b\x03\x10\x1d(\x01\"\x06\b\x03\x10\x1e(\x01\"\x06\b\x03\x10\x1f(\x01\"\x06\b\x03\x10 (\x01\x12\xa0\x01\n" +
diff --git a/proto/wayplatform/connect/tachograph/card/v1/card_type.proto b/proto/wayplatform/connect/tachograph/card/v1/card_type.proto
index 890bcf7..0564a3d 100644
--- a/proto/wayplatform/connect/tachograph/card/v1/card_type.proto
+++ b/proto/wayplatform/connect/tachograph/card/v1/card_type.proto
@@ -199,10 +199,6 @@ enum CardType {
             type: EF
             ef: EF_VEHICLE_UNITS_USED
           },
-          {
-            type: EF
-            ef: EF_COMPANY_ACTIVITY_DATA
-          },
           {
             type: EF
             ef: EF_GNSS_PLACES
-- 
2.43.0


From 9d216d8cb989c69dd04b4460035e7b381ca07dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:01 +0000
Subject: [PATCH 32/62] fix: reject ECC authority keys that are not on their
 curve

ecdsa.Verify panics on off-curve points of the brainpool curves.
---
 internal/security/ecc_verify.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/security/ecc_verify.go b/internal/security/ecc_verify.go
index 42265d4..035b879 100644
--- a/internal/security/ecc_verify.go
+++ b/internal/security/ecc_verify.go
@@ -113,6 +113,12 @@ func VerifyEccCertificateWithCA(cert *securityv1.EccCertificate, caCert *securit
 	caX := new(big.Int).SetBytes(caPointX)
 	caY := new(big.Int).SetBytes(caPointY)
 
+	// Verification against a point that is not on the curve panics for some curves
+	if !curve.IsOnCurve(caX, caY) {
+		cert.SetSignatureValid(false)
+		return fmt.Errorf("CA certificate public key is not on its curve")
+	}
+
 	caPub := &ecdsa.PublicKey{
 		Curve: curve,
 		X:     caX,
-- 
2.43.0


From 6984815c1ee3111210627eb7ab6243396a75bcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:06 +0000
Subject: [PATCH 33/62] fix: reject RSA certificate signatures not below the
 modulus

Such a signature verified although its bits were changed, and a zero modulus
made the exponentiation run without bound.
---
 internal/security/rsa_verify.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/security/rsa_verify.go b/internal/security/rsa_verify.go
index 64c5263..685fdaa 100644
--- a/internal/security/rsa_verify.go
+++ b/internal/security/rsa_verify.go
@@ -130,6 +130,13 @@ func verifyRsaCertificate(cert *securityv1.RsaCertificate, caModulus, caExponent
 	modulus := new(big.Int).SetBytes(caModulus)
 	exponent := new(big.Int).SetBytes(caExponent)
 
+	// A signature is smaller than the modulus: adding the modulus to a genuine one must not give
+	// another genuine one. A zero modulus would make the exponentiation unbounded.
+	if sigInt.Cmp(modulus) >= 0 {
+		cert.SetSignatureValid(false)
+		return fmt.Errorf("signature out of range for the CA modulus")
+	}
+
 	recovered := new(big.Int).Exp(sigInt, exponent, modulus)
 	srPrime := recovered.Bytes()
 
-- 
2.43.0


From 7ce6608a1f88d500678ddca8eec109e18c9a8182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:12 +0000
Subject: [PATCH 34/62] fix: clear signature_valid when verification fails
 early

A certificate verified before stayed marked valid when a later verification
failed on a missing authority or malformed key material.
---
 internal/card/driver_card_file.go | 4 ++++
 internal/security/ecc_verify.go   | 2 ++
 internal/security/rsa_verify.go   | 8 ++++++++
 3 files changed, 14 insertions(+)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index c448734..806ece9 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -1148,6 +1148,8 @@ func (o VerifyOptions) verifyGen1Certificates(ctx context.Context, tachograph *c
 	if cardCert == nil {
 		return fmt.Errorf("card certificate is missing")
 	}
+	// Not valid until verified, also if its authority cannot be found
+	cardCert.SetSignatureValid(false)
 
 	var caCert *securityv1.RsaCertificate
 	var err error
@@ -1200,6 +1202,8 @@ func (o VerifyOptions) verifyGen2Certificates(ctx context.Context, tachographG2
 	if cardSignCert == nil {
 		return fmt.Errorf("card sign certificate is missing")
 	}
+	// Not valid until verified, also if its authority cannot be found
+	cardSignCert.SetSignatureValid(false)
 
 	var caCert *securityv1.EccCertificate
 	var err error
diff --git a/internal/security/ecc_verify.go b/internal/security/ecc_verify.go
index 035b879..878f179 100644
--- a/internal/security/ecc_verify.go
+++ b/internal/security/ecc_verify.go
@@ -38,6 +38,8 @@ func VerifyEccCertificateWithCA(cert *securityv1.EccCertificate, caCert *securit
 	if cert == nil {
 		return fmt.Errorf("certificate cannot be nil")
 	}
+	// Not valid until verified: no result of an earlier verification survives a failure
+	cert.SetSignatureValid(false)
 	if caCert == nil {
 		return fmt.Errorf("CA certificate cannot be nil")
 	}
diff --git a/internal/security/rsa_verify.go b/internal/security/rsa_verify.go
index 685fdaa..f00f8aa 100644
--- a/internal/security/rsa_verify.go
+++ b/internal/security/rsa_verify.go
@@ -19,6 +19,9 @@ import (
 // See Appendix 11, Section 3.3 for the complete specification.
 func VerifyRsaCertificateWithCA(cert *securityv1.RsaCertificate, caCert *securityv1.RsaCertificate) error {
 	if caCert == nil {
+		if cert != nil {
+			cert.SetSignatureValid(false)
+		}
 		return fmt.Errorf("CA certificate cannot be nil")
 	}
 
@@ -39,6 +42,9 @@ func VerifyRsaCertificateWithCA(cert *securityv1.RsaCertificate, caCert *securit
 // RSA certificate verification.
 func VerifyRsaCertificateWithRoot(cert *securityv1.RsaCertificate, root *securityv1.RootCertificate) error {
 	if root == nil {
+		if cert != nil {
+			cert.SetSignatureValid(false)
+		}
 		return fmt.Errorf("root certificate cannot be nil")
 	}
 
@@ -91,6 +97,8 @@ func verifyRsaCertificate(cert *securityv1.RsaCertificate, caModulus, caExponent
 	if cert == nil {
 		return fmt.Errorf("certificate cannot be nil")
 	}
+	// Not valid until verified: no result of an earlier verification survives a failure
+	cert.SetSignatureValid(false)
 
 	rawData := cert.GetRawData()
 	if len(rawData) != 194 {
-- 
2.43.0


From a7272dfaa17c80cd1ac3404a424a5cb2c632363e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:18 +0000
Subject: [PATCH 35/62] fix: check that an ECC certificate names the authority
 verifying it

RSA certificates already were rejected when their authority reference is not
the holder reference of the authority; ECC certificates were not.
---
 internal/security/ecc_verify.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/security/ecc_verify.go b/internal/security/ecc_verify.go
index 878f179..a760e15 100644
--- a/internal/security/ecc_verify.go
+++ b/internal/security/ecc_verify.go
@@ -49,6 +49,11 @@ func VerifyEccCertificateWithCA(cert *securityv1.EccCertificate, caCert *securit
 		return fmt.Errorf("invalid certificate length: got %d, want 204-341", len(rawData))
 	}
 
+	// The certificate names the authority that signed it
+	if car, chr := cert.GetCertificateAuthorityReference(), caCert.GetCertificateHolderReference(); car != chr {
+		return fmt.Errorf("CAR mismatch: certificate references CAR %s, but CA has CHR %s", car, chr)
+	}
+
 	// Get CA's public key
 	caPubKey := caCert.GetPublicKey()
 	if caPubKey == nil {
-- 
2.43.0


From 1157119c6869cbd5c9add7edde48369b44337b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:49 +0000
Subject: [PATCH 36/62] fix: do not modify certificates owned by the resolver

Verifying the authority against the root wrote into the certificate returned
by the resolver, a data race when a resolver shares its certificates.
---
 internal/card/driver_card_file.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index 806ece9..1b133ac 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -1172,6 +1172,9 @@ func (o VerifyOptions) verifyGen1Certificates(ctx context.Context, tachograph *c
 				return fmt.Errorf("failed to get root CA certificate: %w", err)
 			}
 
+			// The resolver may share its certificates: work on a copy of the one it returned
+			caCert = proto.Clone(caCert).(*securityv1.RsaCertificate)
+
 			// Verify the CA certificate against the root CA to populate its public key
 			if err := security.VerifyRsaCertificateWithRoot(caCert, rootCert); err != nil {
 				return fmt.Errorf("CA certificate verification failed: %w", err)
-- 
2.43.0


From 83f2e37986174343cbc30e75890783fea2a0a4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:54 +0000
Subject: [PATCH 37/62] fix: return a copy of the embedded root certificate

Changing the bytes of a resolved root certificate changed the trust anchor of
every later lookup.
---
 internal/cert/certcache/embed.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/internal/cert/certcache/embed.go b/internal/cert/certcache/embed.go
index 0268fb3..5e7e609 100644
--- a/internal/cert/certcache/embed.go
+++ b/internal/cert/certcache/embed.go
@@ -1,7 +1,10 @@
 // Package certcache provides an embedded cache of certificates.
 package certcache
 
-import "embed"
+import (
+	"bytes"
+	"embed"
+)
 
 //go:embed root/EC_PK.bin
 var root []byte
@@ -14,7 +17,7 @@ var g2 embed.FS
 
 // Root returns the ERCA root certificate.
 func Root() []byte {
-	return root
+	return bytes.Clone(root)
 }
 
 // ReadG1 reads a cached Gen1 certificate by its CHR.
-- 
2.43.0


From 6bbf836cb15c02939a3b47f02d3f5ad2664dd12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:58 +0000
Subject: [PATCH 38/62] fix: reject downloaded ECC certificates of another
 holder

The client returned whatever certificate the server sent as the one asked for.
---
 internal/cert/client.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/cert/client.go b/internal/cert/client.go
index 366c7de..869ea38 100644
--- a/internal/cert/client.go
+++ b/internal/cert/client.go
@@ -98,5 +98,12 @@ func (c *Client) GetEccCertificate(ctx context.Context, chr string) (*securityv1
 	if err != nil {
 		return nil, err
 	}
-	return security.UnmarshalEccCertificate(body)
+	cert, err := security.UnmarshalEccCertificate(body)
+	if err != nil {
+		return nil, err
+	}
+	if cert.GetCertificateHolderReference() != chr {
+		return nil, fmt.Errorf("downloaded certificate has CHR %s, want %s", cert.GetCertificateHolderReference(), chr)
+	}
+	return cert, nil
 }
-- 
2.43.0


From 819e1e03c48c740fe9ed08fd91f6a3706488a986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:31 +0000
Subject: [PATCH 39/62] fix: wait for the curves of crypto/elliptic before
 checking authority keys

---
 internal/security/ecc_verify.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/security/ecc_verify.go b/internal/security/ecc_verify.go
index a760e15..ce52f1f 100644
--- a/internal/security/ecc_verify.go
+++ b/internal/security/ecc_verify.go
@@ -120,7 +120,10 @@ func VerifyEccCertificateWithCA(cert *securityv1.EccCertificate, caCert *securit
 	caX := new(big.Int).SetBytes(caPointX)
 	caY := new(big.Int).SetBytes(caPointY)
 
-	// Verification against a point that is not on the curve panics for some curves
+	// Verification against a point that is not on the curve panics for some curves.
+	// IsOnCurve of a Brainpool curve reads the NIST curves of crypto/elliptic without
+	// waiting for their initialisation, which P256 does.
+	elliptic.P256()
 	if !curve.IsOnCurve(caX, caY) {
 		cert.SetSignatureValid(false)
 		return fmt.Errorf("CA certificate public key is not on its curve")
-- 
2.43.0


From 047349a70879f4898475a0b769bcc954d7f02f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:36 +0000
Subject: [PATCH 40/62] fix: reject control types of more than one byte and BCD
 strings out of range

---
 internal/dd/bcd_string.go  | 4 ++++
 internal/dd/controltype.go | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/internal/dd/bcd_string.go b/internal/dd/bcd_string.go
index fca325e..6d08863 100644
--- a/internal/dd/bcd_string.go
+++ b/internal/dd/bcd_string.go
@@ -2,6 +2,7 @@ package dd
 
 import (
 	"fmt"
+	"math"
 
 	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
 )
@@ -24,6 +25,9 @@ func (opts UnmarshalOptions) UnmarshalBcdString(input []byte) (*ddv1.BcdString,
 	if err != nil {
 		return nil, err
 	}
+	if value > math.MaxInt32 {
+		return nil, fmt.Errorf("BCD value out of range: %d", value)
+	}
 	var output ddv1.BcdString
 	output.SetValue(int32(value))
 	output.SetLength(int32(len(input)))
diff --git a/internal/dd/controltype.go b/internal/dd/controltype.go
index 5bf8ac0..43c06eb 100644
--- a/internal/dd/controltype.go
+++ b/internal/dd/controltype.go
@@ -17,6 +17,9 @@ func (opts UnmarshalOptions) UnmarshalControlType(input []byte) (*ddv1.ControlTy
 	if len(input) == 0 {
 		return nil, fmt.Errorf("insufficient data for control type")
 	}
+	if len(input) != 1 {
+		return nil, fmt.Errorf("invalid data length for ControlType: got %d, want 1", len(input))
+	}
 	b := input[0]
 	var output ddv1.ControlType
 	output.SetRawData(input)
-- 
2.43.0


From b62ee838b6b49f13b945301c8273feaeb76928d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:33 +0000
Subject: [PATCH 41/62] fix: reject records whose text fields do not fill their
 places

---
 internal/dd/driver_identification.go           | 10 +++++++++-
 internal/dd/full_card_number_and_generation.go |  2 ++
 internal/dd/holder_name.go                     |  7 +++++++
 internal/dd/owner_identification.go            | 13 +++++++++++++
 internal/dd/vehicle_registration.go            | 10 +++++++++-
 5 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/internal/dd/driver_identification.go b/internal/dd/driver_identification.go
index 31de0e8..f185800 100644
--- a/internal/dd/driver_identification.go
+++ b/internal/dd/driver_identification.go
@@ -57,7 +57,15 @@ func AppendDriverIdentification(dst []byte, driverID *ddv1.DriverIdentification)
 	}
 
 	// Append driver identification number (14 bytes)
-	return AppendIa5StringValue(dst, driverID.GetDriverIdentificationNumber())
+	start := len(dst)
+	dst, err := AppendIa5StringValue(dst, driverID.GetDriverIdentificationNumber())
+	if err != nil {
+		return nil, err
+	}
+	if got := len(dst) - start; got != 14 {
+		return nil, fmt.Errorf("invalid length of driver identification number: got %d, want 14", got)
+	}
+	return dst, nil
 }
 
 // AnonymizeDriverIdentification creates an anonymized copy of DriverIdentification,
diff --git a/internal/dd/full_card_number_and_generation.go b/internal/dd/full_card_number_and_generation.go
index 0438528..e1c82c7 100644
--- a/internal/dd/full_card_number_and_generation.go
+++ b/internal/dd/full_card_number_and_generation.go
@@ -82,6 +82,8 @@ func AppendFullCardNumberAndGeneration(dst []byte, fullCardNumberAndGen *ddv1.Fu
 		if err != nil {
 			return nil, fmt.Errorf("failed to append full card number: %w", err)
 		}
+	} else {
+		return nil, fmt.Errorf("full card number cannot be nil")
 	}
 
 	// Append generation (1 byte)
diff --git a/internal/dd/holder_name.go b/internal/dd/holder_name.go
index 381fb50..b19d3d7 100644
--- a/internal/dd/holder_name.go
+++ b/internal/dd/holder_name.go
@@ -80,6 +80,7 @@ func AppendHolderName(dst []byte, holderName *ddv1.HolderName) ([]byte, error) {
 		return nil, fmt.Errorf("holderName cannot be nil")
 	}
 
+	start := len(dst)
 	var err error
 
 	// Append holder surname (36 bytes)
@@ -87,12 +88,18 @@ func AppendHolderName(dst []byte, holderName *ddv1.HolderName) ([]byte, error) {
 	if err != nil {
 		return nil, fmt.Errorf("failed to append holder surname: %w", err)
 	}
+	if got := len(dst) - start; got != 36 {
+		return nil, fmt.Errorf("invalid length of holder surname: got %d, want 36", got)
+	}
 
 	// Append holder first names (36 bytes)
 	dst, err = AppendStringValue(dst, holderName.GetHolderFirstNames())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append holder first names: %w", err)
 	}
+	if got := len(dst) - start; got != 72 {
+		return nil, fmt.Errorf("invalid length of holder first names: got %d, want 36", got-36)
+	}
 
 	return dst, nil
 }
diff --git a/internal/dd/owner_identification.go b/internal/dd/owner_identification.go
index f3197f2..9b996d0 100644
--- a/internal/dd/owner_identification.go
+++ b/internal/dd/owner_identification.go
@@ -90,29 +90,42 @@ func AppendOwnerIdentification(dst []byte, ownerID *ddv1.OwnerIdentification) ([
 	}
 
 	// Append owner identification number (13 bytes)
+	start := len(dst)
 	var err error
 	dst, err = AppendIa5StringValue(dst, ownerID.GetOwnerIdentification())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append owner identification number: %w", err)
 	}
+	if got := len(dst) - start; got != 13 {
+		return nil, fmt.Errorf("invalid length of owner identification number: got %d, want 13", got)
+	}
 
 	// Append card consecutive index (1 byte)
 	dst, err = AppendIa5StringValue(dst, ownerID.GetConsecutiveIndex())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append card consecutive index: %w", err)
 	}
+	if got := len(dst) - start; got != 14 {
+		return nil, fmt.Errorf("invalid length of card consecutive index: got %d, want 1", got-13)
+	}
 
 	// Append card replacement index (1 byte)
 	dst, err = AppendIa5StringValue(dst, ownerID.GetReplacementIndex())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append card replacement index: %w", err)
 	}
+	if got := len(dst) - start; got != 15 {
+		return nil, fmt.Errorf("invalid length of card replacement index: got %d, want 1", got-14)
+	}
 
 	// Append card renewal index (1 byte)
 	dst, err = AppendIa5StringValue(dst, ownerID.GetRenewalIndex())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append card renewal index: %w", err)
 	}
+	if got := len(dst) - start; got != 16 {
+		return nil, fmt.Errorf("invalid length of card renewal index: got %d, want 1", got-15)
+	}
 
 	return dst, nil
 }
diff --git a/internal/dd/vehicle_registration.go b/internal/dd/vehicle_registration.go
index 59abbad..734d368 100644
--- a/internal/dd/vehicle_registration.go
+++ b/internal/dd/vehicle_registration.go
@@ -91,5 +91,13 @@ func AppendVehicleRegistration(dst []byte, vehicleReg *ddv1.VehicleRegistrationI
 		number.SetLength(13) // Length of the string data, not including code page byte
 		number.SetEncoding(ddv1.Encoding_ENCODING_DEFAULT)
 	}
-	return AppendStringValue(dst, number)
+	start := len(dst)
+	dst, err := AppendStringValue(dst, number)
+	if err != nil {
+		return nil, err
+	}
+	if got := len(dst) - start; got != 14 {
+		return nil, fmt.Errorf("invalid length of registration number: got %d, want 14", got)
+	}
+	return dst, nil
 }
-- 
2.43.0


From 22f4aef9b6443e8f1d4aa42c3f41b166cfd68639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:23 +0000
Subject: [PATCH 42/62] fix: remove stale certificates from directories with
 glob characters in their names

---
 tools/cmd/fetch-certs/main.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tools/cmd/fetch-certs/main.go b/tools/cmd/fetch-certs/main.go
index 23a3231..509a33f 100644
--- a/tools/cmd/fetch-certs/main.go
+++ b/tools/cmd/fetch-certs/main.go
@@ -194,11 +194,16 @@ func createDirectoryStructure(baseDir string) error {
 		}
 
 		// Remove existing .bin files to ensure clean state
-		files, err := filepath.Glob(filepath.Join(dir, "*.bin"))
+		// (the directory is not a pattern, its name may hold any characters)
+		files, err := os.ReadDir(dir)
 		if err != nil {
 			return fmt.Errorf("failed to list files in %s: %w", dir, err)
 		}
-		for _, file := range files {
+		for _, entry := range files {
+			if !strings.HasSuffix(entry.Name(), ".bin") {
+				continue
+			}
+			file := filepath.Join(dir, entry.Name())
 			if err := os.Remove(file); err != nil {
 				return fmt.Errorf("failed to remove file %s: %w", file, err)
 			}
-- 
2.43.0


From 5ddf401b6e39a0951015251086f190451e11eff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 43/62] fix: keep downloaded certificates that start with a
 less-than sign

---
 tools/cmd/fetch-certs/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/cmd/fetch-certs/main.go b/tools/cmd/fetch-certs/main.go
index 509a33f..31d1b0f 100644
--- a/tools/cmd/fetch-certs/main.go
+++ b/tools/cmd/fetch-certs/main.go
@@ -941,7 +941,9 @@ func downloadCertificate(url string, maxSize int) ([]byte, error) {
 		return nil, err
 	}
 
-	if len(data) > 0 && data[0] == '<' {
+	// The first byte alone does not tell: a Gen1 certificate starts with a
+	// signature, which may start with any byte.
+	if strings.HasPrefix(http.DetectContentType(data), "text/html") {
 		return nil, fmt.Errorf("received HTML instead of certificate data")
 	}
 
-- 
2.43.0


From ba3a6009e971b0d374bf929e6d9c576f69b98671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:31 +0000
Subject: [PATCH 44/62] fix: leave out downloaded certificates whose holder
 cannot be recovered

---
 tools/cmd/fetch-certs/main.go | 42 +++++++++++++++++------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/tools/cmd/fetch-certs/main.go b/tools/cmd/fetch-certs/main.go
index 31d1b0f..7130b8e 100644
--- a/tools/cmd/fetch-certs/main.go
+++ b/tools/cmd/fetch-certs/main.go
@@ -309,25 +309,25 @@ func indexAndDownloadGen1Certificates(ctx context.Context, baseURL, outputDir st
 			carStr := fmt.Sprintf("%d", car)
 
 			// Perform signature recovery to extract CHR
-			chrStr := ""
 			eov := meta.expirationDate
 			cPrime, err := recoverGen1Certificate(certData, ercaModulus, ercaExponent)
-			if err == nil {
-				chr, extractedEOV, extractErr := extractGen1CHRAndEOV(cPrime)
-				if extractErr == nil {
-					chrStr = fmt.Sprintf("%d", chr)
-					if extractedEOV != "" {
-						eov = extractedEOV
-					}
-				}
+			if err != nil {
+				log.Printf("Warning: Failed to recover %s: %v", meta.name, err)
+				return nil
 			}
-
-			// Use CHR as filename if available, otherwise use the metadata name
-			filename := meta.name + ".bin"
-			if chrStr != "" {
-				filename = chrStr + ".bin"
+			chr, extractedEOV, err := extractGen1CHRAndEOV(cPrime)
+			if err != nil {
+				log.Printf("Warning: Failed to extract CHR from %s: %v", meta.name, err)
+				return nil
+			}
+			chrStr := fmt.Sprintf("%d", chr)
+			if extractedEOV != "" {
+				eov = extractedEOV
 			}
 
+			// The CHR is the filename
+			filename := chrStr + ".bin"
+
 			// Save certificate to g1/<CHR>.bin
 			certPath := filepath.Join(outputDir, "g1", filename)
 			if err := os.WriteFile(certPath, certData, 0o644); err != nil {
@@ -416,16 +416,14 @@ func indexAndDownloadGen2Certificates(ctx context.Context, baseURL, outputDir st
 
 			// Extract CHR from Gen2 certificate (it's in the ASN.1 structure)
 			chr, err := extractGen2CHR(certData)
-			chrStr := ""
-			if err == nil {
-				chrStr = fmt.Sprintf("%d", chr)
+			if err != nil {
+				log.Printf("Warning: Failed to extract CHR from %s: %v", meta.name, err)
+				return nil
 			}
+			chrStr := fmt.Sprintf("%d", chr)
 
-			// Use CHR as filename if available, otherwise use the metadata name
-			filename := meta.name + ".bin"
-			if chrStr != "" {
-				filename = chrStr + ".bin"
-			}
+			// The CHR is the filename
+			filename := chrStr + ".bin"
 
 			// Save certificate to g2/<CHR>.bin
 			certPath := filepath.Join(outputDir, "g2", filename)
-- 
2.43.0


From 4be63e5e5374ec2f9248d079f01f4ccd29f6c58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 45/62] fix: save and index each certificate once, in an order
 independent of concurrency

---
 tools/cmd/fetch-certs/main.go | 69 +++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 32 deletions(-)

diff --git a/tools/cmd/fetch-certs/main.go b/tools/cmd/fetch-certs/main.go
index 7130b8e..9366edb 100644
--- a/tools/cmd/fetch-certs/main.go
+++ b/tools/cmd/fetch-certs/main.go
@@ -18,7 +18,6 @@ import (
 	"path/filepath"
 	"sort"
 	"strings"
-	"sync"
 	"time"
 
 	"golang.org/x/net/html"
@@ -234,7 +233,7 @@ func downloadAndSaveRootCertificate(ctx context.Context, baseDir string) ([]byte
 
 // sortCertificates sorts certificate entries by country (ascending) and expiration date (descending).
 func sortCertificates(certs []CertificateEntry) {
-	sort.Slice(certs, func(i, j int) bool {
+	sort.SliceStable(certs, func(i, j int) bool {
 		// First, sort by country (ascending)
 		if certs[i].Country != certs[j].Country {
 			return certs[i].Country < certs[j].Country
@@ -284,15 +283,14 @@ func indexAndDownloadGen1Certificates(ctx context.Context, baseURL, outputDir st
 	log.Printf("Found %d Gen1 certificate links", len(certMetadata))
 
 	// Process certificates concurrently
-	var mu sync.Mutex
-	var certificates []CertificateEntry
+	downloads := make([]*downloadedCertificate, len(certMetadata))
 
 	g, gctx := errgroup.WithContext(ctx)
 	g.SetLimit(concurrency)
 	_ = gctx // Context is embedded in errgroup
 
-	for _, meta := range certMetadata {
-		meta := meta // capture loop variable
+	for i, meta := range certMetadata {
+		i, meta := i, meta // capture loop variables
 		g.Go(func() error {
 			certData, err := downloadCertificate(meta.downloadURL, 194)
 			if err != nil {
@@ -328,13 +326,6 @@ func indexAndDownloadGen1Certificates(ctx context.Context, baseURL, outputDir st
 			// The CHR is the filename
 			filename := chrStr + ".bin"
 
-			// Save certificate to g1/<CHR>.bin
-			certPath := filepath.Join(outputDir, "g1", filename)
-			if err := os.WriteFile(certPath, certData, 0o644); err != nil {
-				log.Printf("Warning: Failed to save %s: %v", filename, err)
-				return nil
-			}
-
 			entry := CertificateEntry{
 				CAR:            carStr,
 				CHR:            chrStr,
@@ -344,9 +335,7 @@ func indexAndDownloadGen1Certificates(ctx context.Context, baseURL, outputDir st
 				Path:           filepath.Join("g1", filename),
 			}
 
-			mu.Lock()
-			certificates = append(certificates, entry)
-			mu.Unlock()
+			downloads[i] = &downloadedCertificate{entry: entry, data: certData}
 
 			if eov != "" {
 				log.Printf("  Downloaded: %s (%s, CAR: %s, CHR: %s, Expires: %s)", filename, meta.country, carStr, chrStr, eov)
@@ -361,7 +350,7 @@ func indexAndDownloadGen1Certificates(ctx context.Context, baseURL, outputDir st
 		return nil, err
 	}
 
-	return certificates, nil
+	return saveCertificates(outputDir, downloads), nil
 }
 
 func indexAndDownloadGen2Certificates(ctx context.Context, baseURL, outputDir string, concurrency int) ([]CertificateEntry, error) {
@@ -387,15 +376,14 @@ func indexAndDownloadGen2Certificates(ctx context.Context, baseURL, outputDir st
 	log.Printf("Found %d Gen2 certificate links", len(certMetadata))
 
 	// Process certificates concurrently
-	var mu sync.Mutex
-	var certificates []CertificateEntry
+	downloads := make([]*downloadedCertificate, len(certMetadata))
 
 	g, gctx := errgroup.WithContext(ctx)
 	g.SetLimit(concurrency)
 	_ = gctx // Context is embedded in errgroup
 
-	for _, meta := range certMetadata {
-		meta := meta // capture loop variable
+	for i, meta := range certMetadata {
+		i, meta := i, meta // capture loop variables
 		g.Go(func() error {
 			certData, err := downloadCertificate(meta.downloadURL, 341)
 			if err != nil {
@@ -425,13 +413,6 @@ func indexAndDownloadGen2Certificates(ctx context.Context, baseURL, outputDir st
 			// The CHR is the filename
 			filename := chrStr + ".bin"
 
-			// Save certificate to g2/<CHR>.bin
-			certPath := filepath.Join(outputDir, "g2", filename)
-			if err := os.WriteFile(certPath, certData, 0o644); err != nil {
-				log.Printf("Warning: Failed to save %s: %v", filename, err)
-				return nil
-			}
-
 			carStr := fmt.Sprintf("%d", car)
 			entry := CertificateEntry{
 				CAR:            carStr,
@@ -442,9 +423,7 @@ func indexAndDownloadGen2Certificates(ctx context.Context, baseURL, outputDir st
 				Path:           filepath.Join("g2", filename),
 			}
 
-			mu.Lock()
-			certificates = append(certificates, entry)
-			mu.Unlock()
+			downloads[i] = &downloadedCertificate{entry: entry, data: certData}
 
 			if meta.expirationDate != "" {
 				log.Printf("  Downloaded: %s (%s, CAR: %s, CHR: %s, Expires: %s)", filename, meta.country, carStr, chrStr, meta.expirationDate)
@@ -459,7 +438,33 @@ func indexAndDownloadGen2Certificates(ctx context.Context, baseURL, outputDir st
 		return nil, err
 	}
 
-	return certificates, nil
+	return saveCertificates(outputDir, downloads), nil
+}
+
+// downloadedCertificate is a certificate and its entry in the index.
+type downloadedCertificate struct {
+	entry CertificateEntry
+	data  []byte
+}
+
+// saveCertificates saves downloaded certificates in the order of the certificate list and returns their
+// index entries. A certificate that is listed more than once is saved and indexed once.
+func saveCertificates(outputDir string, downloads []*downloadedCertificate) []CertificateEntry {
+	var certificates []CertificateEntry
+	saved := make(map[string]bool)
+	for _, download := range downloads {
+		if download == nil || saved[download.entry.Path] {
+			continue
+		}
+		certPath := filepath.Join(outputDir, download.entry.Path)
+		if err := os.WriteFile(certPath, download.data, 0o644); err != nil {
+			log.Printf("Warning: Failed to save %s: %v", download.entry.Path, err)
+			continue
+		}
+		saved[download.entry.Path] = true
+		certificates = append(certificates, download.entry)
+	}
+	return certificates
 }
 
 // extractGen1CAR extracts the Certificate Authority Reference from a Gen1 certificate.
-- 
2.43.0


From 885408efc6f3ca96e988df1586db1a1368e108e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 46/62] fix: fail when a parsed file cannot be written to
 standard output

---
 cmd/tachograph/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/tachograph/main.go b/cmd/tachograph/main.go
index 0c071e7..f490a03 100644
--- a/cmd/tachograph/main.go
+++ b/cmd/tachograph/main.go
@@ -71,7 +71,9 @@ func newParseCommand() *cobra.Command {
 			if err != nil {
 				return fmt.Errorf("error parsing file %s: %w", filename, err)
 			}
-			fmt.Println(protojson.Format(file))
+			if _, err := fmt.Println(protojson.Format(file)); err != nil {
+				return fmt.Errorf("error writing %s: %w", filename, err)
+			}
 		}
 		return nil
 	}
-- 
2.43.0


From 0303afc267a912239cf3bf176d0c9585c3fc762e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 47/62] fix: keep the card number indices of an anonymised
 driver identification

---
 internal/card/identification.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/card/identification.go b/internal/card/identification.go
index b37aec2..32d954e 100644
--- a/internal/card/identification.go
+++ b/internal/card/identification.go
@@ -533,7 +533,11 @@ func AnonymizeIdentification(id *cardv1.Identification) *cardv1.Identification {
 
 		// Anonymize driver identification
 		if driverID := card.GetDriverIdentification(); driverID != nil {
-			anonymizedCard.SetDriverIdentification(dd.AnonymizeDriverIdentification(driverID))
+			anonymizedDriver := dd.AnonymizeDriverIdentification(driverID)
+			// The 16-byte card number of a driver card ends with both indices
+			anonymizedDriver.SetCardReplacementIndex(createIA5StringValue("0", 1))
+			anonymizedDriver.SetCardRenewalIndex(createIA5StringValue("0", 1))
+			anonymizedCard.SetDriverIdentification(anonymizedDriver)
 		}
 
 		// Anonymize owner identification (for workshop/control/company cards)
-- 
2.43.0


From cc74ae1ac458abd3f253ad3c70b085df8dc39522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 48/62] fix: bound the work of writing BCD and reject data
 block counters of another width

---
 internal/dd/bcd.go                    | 5 ++---
 internal/dd/card_vehicle_record.go    | 4 ++++
 internal/dd/card_vehicle_record_g2.go | 4 ++++
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/dd/bcd.go b/internal/dd/bcd.go
index 5a9d1f4..d5446e1 100644
--- a/internal/dd/bcd.go
+++ b/internal/dd/bcd.go
@@ -4,6 +4,7 @@ import (
 	"encoding/hex"
 	"fmt"
 	"strconv"
+	"strings"
 )
 
 // decodeBCD converts BCD-encoded bytes to an integer
@@ -34,9 +35,7 @@ func appendBCD(dst []byte, value int, length int) ([]byte, error) {
 		return nil, fmt.Errorf("value %d requires more than %d bytes (has %d digits, max %d)", value, length, len(s), maxDigits)
 	}
 	// Pad with leading zeros to fill the length
-	for len(s) < maxDigits {
-		s = "0" + s
-	}
+	s = strings.Repeat("0", maxDigits-len(s)) + s
 	result, err := hex.AppendDecode(dst, []byte(s))
 	if err != nil {
 		return nil, fmt.Errorf("failed to encode BCD: %w", err)
diff --git a/internal/dd/card_vehicle_record.go b/internal/dd/card_vehicle_record.go
index 956ea9e..096ba9c 100644
--- a/internal/dd/card_vehicle_record.go
+++ b/internal/dd/card_vehicle_record.go
@@ -131,10 +131,14 @@ func AppendCardVehicleRecord(dst []byte, record *ddv1.CardVehicleRecord) ([]byte
 	copy(canvas[14:29], vehicleRegBytes)
 
 	// VU data block counter (2 bytes as BCD)
+	if counter := record.GetVuDataBlockCounter(); counter != nil && counter.GetLength() != 2 {
+		return nil, fmt.Errorf("invalid length of VU data block counter: got %d, want 2", counter.GetLength())
+	}
 	vuDataBlockCounterBytes, err := AppendBcdString(nil, record.GetVuDataBlockCounter())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append VU data block counter: %w", err)
 	}
+	clear(canvas[29:31]) // absent is zero
 	copy(canvas[29:31], vuDataBlockCounterBytes)
 
 	return append(dst, canvas[:]...), nil
diff --git a/internal/dd/card_vehicle_record_g2.go b/internal/dd/card_vehicle_record_g2.go
index 357517b..2ca8c5f 100644
--- a/internal/dd/card_vehicle_record_g2.go
+++ b/internal/dd/card_vehicle_record_g2.go
@@ -140,10 +140,14 @@ func AppendCardVehicleRecordG2(dst []byte, record *ddv1.CardVehicleRecordG2) ([]
 	copy(canvas[14:29], vehicleRegBytes)
 
 	// VU data block counter (2 bytes as BCD)
+	if counter := record.GetVuDataBlockCounter(); counter != nil && counter.GetLength() != 2 {
+		return nil, fmt.Errorf("invalid length of VU data block counter: got %d, want 2", counter.GetLength())
+	}
 	vuDataBlockCounterBytes, err := AppendBcdString(nil, record.GetVuDataBlockCounter())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append VU data block counter: %w", err)
 	}
+	clear(canvas[29:31]) // absent is zero
 	copy(canvas[29:31], vuDataBlockCounterBytes)
 
 	// VIN (17 bytes IA5String)
-- 
2.43.0


From c74cd8b6827b2c98a137b77994f19c09fda1628d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 49/62] fix: paint specific conditions over retained bytes only
 when these hold as many records

---
 internal/card/specific_conditions_g2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/card/specific_conditions_g2.go b/internal/card/specific_conditions_g2.go
index 0df51c6..cffbb93 100644
--- a/internal/card/specific_conditions_g2.go
+++ b/internal/card/specific_conditions_g2.go
@@ -73,7 +73,7 @@ func appendCardSpecificConditionsG2(data []byte, conditions *cardv1.SpecificCond
 	}
 
 	// Use raw_data as canvas if available (includes pointer + records + trailing bytes)
-	if rawData := conditions.GetRawData(); len(rawData) > 0 {
+	if rawData := conditions.GetRawData(); len(rawData) >= 2 && (len(rawData)-2)/5 == len(conditions.GetRecords()) {
 		const (
 			lenPointer = 2
 			recordSize = 5
-- 
2.43.0


From 179dcc33026a5b0636cc5f538e3d73c9b6e17d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:56 +0000
Subject: [PATCH 50/62] fix: reject certificates longer than an element can be

---
 internal/card/driver_card_file.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/card/driver_card_file.go b/internal/card/driver_card_file.go
index 1b133ac..2bff4be 100644
--- a/internal/card/driver_card_file.go
+++ b/internal/card/driver_card_file.go
@@ -876,6 +876,9 @@ func appendCertificateEF(dst []byte, fileType cardv1.ElementaryFileType, certDat
 	if len(certData) == 0 {
 		return dst, nil // Skip empty certificates
 	}
+	if len(certData) > math.MaxUint16 {
+		return nil, fmt.Errorf("certificate of %v is too long: %d bytes", fileType, len(certData))
+	}
 
 	opts := fileType.Descriptor().Values().ByNumber(protoreflect.EnumNumber(fileType)).Options()
 	tag := proto.GetExtension(opts, cardv1.E_FileId).(int32)
@@ -896,6 +899,9 @@ func appendCertificateEFG2(dst []byte, fileType cardv1.ElementaryFileType, certD
 	if len(certData) == 0 {
 		return dst, nil // Skip empty certificates
 	}
+	if len(certData) > math.MaxUint16 {
+		return nil, fmt.Errorf("certificate of %v is too long: %d bytes", fileType, len(certData))
+	}
 
 	opts := fileType.Descriptor().Values().ByNumber(protoreflect.EnumNumber(fileType)).Options()
 	tag := proto.GetExtension(opts, cardv1.E_FileId).(int32)
-- 
2.43.0


From 62d72ca2d34faa149708b2cb7a055b1880938fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:11 +0000
Subject: [PATCH 51/62] fix: reject raw records whose length differs from their
 value

---
 internal/card/rawcardfile.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/card/rawcardfile.go b/internal/card/rawcardfile.go
index ac6cea6..a2f5c84 100644
--- a/internal/card/rawcardfile.go
+++ b/internal/card/rawcardfile.go
@@ -4,7 +4,9 @@ import (
 	"bufio"
 	"bytes"
 	"encoding/binary"
+	"fmt"
 	"io"
+	"math"
 
 	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
 	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
@@ -38,6 +40,12 @@ func UnmarshalRawCardFile(input []byte) (*cardv1.RawCardFile, error) {
 func MarshalRawCardFile(file *cardv1.RawCardFile) ([]byte, error) {
 	var result []byte
 	for _, record := range file.GetRecords() {
+		if tag := record.GetTag(); tag < 0 || tag > 0xFFFFFF {
+			return nil, fmt.Errorf("tag out of range: %d", tag)
+		}
+		if got, want := len(record.GetValue()), record.GetLength(); got > math.MaxUint16 || int32(got) != want {
+			return nil, fmt.Errorf("value of record %06X has %d bytes, its length is %d", record.GetTag(), got, want)
+		}
 		// Write tag (FID + appendix)
 		result = binary.BigEndian.AppendUint16(result, uint16(record.GetTag()>>8))
 		result = append(result, byte(record.GetTag()&0xFF))
-- 
2.43.0


From f3de9da9ba5100a20b9f63bf5131a798a28c1db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 52/62] fix: reject numbers, times and dates that do not fit
 their fields

---
 internal/card/activity.go                     | 10 ++++++++
 internal/card/application_identification.go   | 15 ++++++++++++
 .../card/application_identification_g2.go     | 24 +++++++++++++++++++
 internal/card/gnss_places.go                  |  3 +++
 internal/card/icc.go                          |  6 +++++
 internal/card/places.go                       |  6 +++++
 internal/card/places_g2.go                    |  6 +++++
 internal/card/specific_conditions_g2.go       |  6 +++++
 internal/card/vehicle_units_used.go           |  3 +++
 internal/card/vehicles_used.go                |  6 +++++
 internal/card/vehicles_used_g2.go             |  6 +++++
 internal/dd/activity_change_info.go           |  3 +++
 internal/dd/card_structure_version.go         |  6 +++++
 internal/dd/card_vehicle_record.go            |  6 +++++
 internal/dd/card_vehicle_record_g2.go         |  6 +++++
 internal/dd/date.go                           |  9 +++++++
 internal/dd/extended_serial_number.go         | 13 ++++++++++
 internal/dd/geo_coordinates.go                |  5 ++++
 internal/dd/gnss_place_auth_record.go         |  6 +++++
 internal/dd/month_year.go                     |  7 ++++++
 internal/dd/place_record.go                   |  9 +++++++
 internal/dd/place_record_g2.go                |  9 +++++++
 internal/dd/range.go                          | 12 ++++++++++
 internal/dd/specific_condition_record.go      |  3 +++
 internal/dd/time_real.go                      |  6 ++++-
 internal/dd/vu_card_iw_record.go              |  6 +++++
 26 files changed, 196 insertions(+), 1 deletion(-)
 create mode 100644 internal/dd/range.go

diff --git a/internal/card/activity.go b/internal/card/activity.go
index 3348443..f031820 100644
--- a/internal/card/activity.go
+++ b/internal/card/activity.go
@@ -248,6 +248,13 @@ func appendDriverActivity(dst []byte, activity *cardv1.DriverActivityData) ([]by
 		}
 	}
 
+	if err := dd.CheckRange("oldest day record index", oldest, 0xFFFF); err != nil {
+		return nil, err
+	}
+	if err := dd.CheckRange("newest day record index", newest, 0xFFFF); err != nil {
+		return nil, err
+	}
+
 	// Append header (pointers)
 	dst = binary.BigEndian.AppendUint16(dst, uint16(oldest))
 	dst = binary.BigEndian.AppendUint16(dst, uint16(newest))
@@ -565,6 +572,9 @@ func marshalRecordWithHeader(rec *cardv1.DriverActivityData_DailyRecord, prevRec
 		return nil, fmt.Errorf("failed to append activity daily presence counter: %w", err)
 	}
 
+	if err := dd.CheckRange("activity day distance", rec.GetActivityDayDistance(), 0xFFFF); err != nil {
+		return nil, err
+	}
 	buf = binary.BigEndian.AppendUint16(buf, uint16(rec.GetActivityDayDistance()))
 
 	// Write activity change info
diff --git a/internal/card/application_identification.go b/internal/card/application_identification.go
index 83f9c40..3b13c4d 100644
--- a/internal/card/application_identification.go
+++ b/internal/card/application_identification.go
@@ -164,6 +164,9 @@ func appendCardApplicationIdentification(data []byte, appId *cardv1.ApplicationI
 
 	// Events per type count (1 byte)
 	if driver.HasEventsPerTypeCount() {
+		if err := dd.CheckRange("events per type count", driver.GetEventsPerTypeCount(), 0xFF); err != nil {
+			return nil, err
+		}
 		data = append(data, byte(driver.GetEventsPerTypeCount()))
 	} else {
 		data = append(data, 0x00)
@@ -171,6 +174,9 @@ func appendCardApplicationIdentification(data []byte, appId *cardv1.ApplicationI
 
 	// Faults per type count (1 byte)
 	if driver.HasFaultsPerTypeCount() {
+		if err := dd.CheckRange("faults per type count", driver.GetFaultsPerTypeCount(), 0xFF); err != nil {
+			return nil, err
+		}
 		data = append(data, byte(driver.GetFaultsPerTypeCount()))
 	} else {
 		data = append(data, 0x00)
@@ -179,6 +185,9 @@ func appendCardApplicationIdentification(data []byte, appId *cardv1.ApplicationI
 	// Activity structure length (2 bytes)
 	if driver.HasActivityStructureLength() {
 		activityLength := make([]byte, 2)
+		if err := dd.CheckRange("activity structure length", driver.GetActivityStructureLength(), 0xFFFF); err != nil {
+			return nil, err
+		}
 		binary.BigEndian.PutUint16(activityLength, uint16(driver.GetActivityStructureLength()))
 		data = append(data, activityLength...)
 	} else {
@@ -188,6 +197,9 @@ func appendCardApplicationIdentification(data []byte, appId *cardv1.ApplicationI
 	// Card vehicle records count (2 bytes in Gen1)
 	if driver.HasCardVehicleRecordsCount() {
 		vehicleRecords := make([]byte, 2)
+		if err := dd.CheckRange("card vehicle records count", driver.GetCardVehicleRecordsCount(), 0xFFFF); err != nil {
+			return nil, err
+		}
 		binary.BigEndian.PutUint16(vehicleRecords, uint16(driver.GetCardVehicleRecordsCount()))
 		data = append(data, vehicleRecords...)
 	} else {
@@ -196,6 +208,9 @@ func appendCardApplicationIdentification(data []byte, appId *cardv1.ApplicationI
 
 	// Card place records count (1 byte in Gen1)
 	if driver.HasCardPlaceRecordsCount() {
+		if err := dd.CheckRange("card place records count", driver.GetCardPlaceRecordsCount(), 0xFF); err != nil {
+			return nil, err
+		}
 		data = append(data, byte(driver.GetCardPlaceRecordsCount()))
 	} else {
 		data = append(data, 0x00)
diff --git a/internal/card/application_identification_g2.go b/internal/card/application_identification_g2.go
index 72654e3..b80ea94 100644
--- a/internal/card/application_identification_g2.go
+++ b/internal/card/application_identification_g2.go
@@ -192,6 +192,9 @@ func appendCardApplicationIdentificationG2(data []byte, appId *cardv1.Applicatio
 
 	// Events per type count (1 byte)
 	if driver.HasEventsPerTypeCount() {
+		if err := dd.CheckRange("events per type count", driver.GetEventsPerTypeCount(), 0xFF); err != nil {
+			return nil, err
+		}
 		data = append(data, byte(driver.GetEventsPerTypeCount()))
 	} else {
 		data = append(data, 0x00)
@@ -199,6 +202,9 @@ func appendCardApplicationIdentificationG2(data []byte, appId *cardv1.Applicatio
 
 	// Faults per type count (1 byte)
 	if driver.HasFaultsPerTypeCount() {
+		if err := dd.CheckRange("faults per type count", driver.GetFaultsPerTypeCount(), 0xFF); err != nil {
+			return nil, err
+		}
 		data = append(data, byte(driver.GetFaultsPerTypeCount()))
 	} else {
 		data = append(data, 0x00)
@@ -207,6 +213,9 @@ func appendCardApplicationIdentificationG2(data []byte, appId *cardv1.Applicatio
 	// Activity structure length (2 bytes)
 	if driver.HasActivityStructureLength() {
 		activityLength := make([]byte, 2)
+		if err := dd.CheckRange("activity structure length", driver.GetActivityStructureLength(), 0xFFFF); err != nil {
+			return nil, err
+		}
 		binary.BigEndian.PutUint16(activityLength, uint16(driver.GetActivityStructureLength()))
 		data = append(data, activityLength...)
 	} else {
@@ -216,6 +225,9 @@ func appendCardApplicationIdentificationG2(data []byte, appId *cardv1.Applicatio
 	// Card vehicle records count (2 bytes in Gen2)
 	if driver.HasCardVehicleRecordsCount() {
 		vehicleRecords := make([]byte, 2)
+		if err := dd.CheckRange("card vehicle records count", driver.GetCardVehicleRecordsCount(), 0xFFFF); err != nil {
+			return nil, err
+		}
 		binary.BigEndian.PutUint16(vehicleRecords, uint16(driver.GetCardVehicleRecordsCount()))
 		data = append(data, vehicleRecords...)
 	} else {
@@ -225,6 +237,9 @@ func appendCardApplicationIdentificationG2(data []byte, appId *cardv1.Applicatio
 	// Card place records count (2 bytes in Gen2)
 	if driver.HasCardPlaceRecordsCount() {
 		placeRecords := make([]byte, 2)
+		if err := dd.CheckRange("card place records count", driver.GetCardPlaceRecordsCount(), 0xFFFF); err != nil {
+			return nil, err
+		}
 		binary.BigEndian.PutUint16(placeRecords, uint16(driver.GetCardPlaceRecordsCount()))
 		data = append(data, placeRecords...)
 	} else {
@@ -236,6 +251,9 @@ func appendCardApplicationIdentificationG2(data []byte, appId *cardv1.Applicatio
 	// GNSS AD records count (2 bytes)
 	if driver.HasGnssAdRecordsCount() {
 		gnssAdRecords := make([]byte, 2)
+		if err := dd.CheckRange("gnss ad records count", driver.GetGnssAdRecordsCount(), 0xFFFF); err != nil {
+			return nil, err
+		}
 		binary.BigEndian.PutUint16(gnssAdRecords, uint16(driver.GetGnssAdRecordsCount()))
 		data = append(data, gnssAdRecords...)
 	} else {
@@ -245,6 +263,9 @@ func appendCardApplicationIdentificationG2(data []byte, appId *cardv1.Applicatio
 	// Specific condition records count (2 bytes)
 	if driver.HasSpecificConditionRecordsCount() {
 		specificConditionRecords := make([]byte, 2)
+		if err := dd.CheckRange("specific condition records count", driver.GetSpecificConditionRecordsCount(), 0xFFFF); err != nil {
+			return nil, err
+		}
 		binary.BigEndian.PutUint16(specificConditionRecords, uint16(driver.GetSpecificConditionRecordsCount()))
 		data = append(data, specificConditionRecords...)
 	} else {
@@ -254,6 +275,9 @@ func appendCardApplicationIdentificationG2(data []byte, appId *cardv1.Applicatio
 	// Card vehicle unit records count (2 bytes)
 	if driver.HasCardVehicleUnitRecordsCount() {
 		vehicleUnitRecords := make([]byte, 2)
+		if err := dd.CheckRange("card vehicle unit records count", driver.GetCardVehicleUnitRecordsCount(), 0xFFFF); err != nil {
+			return nil, err
+		}
 		binary.BigEndian.PutUint16(vehicleUnitRecords, uint16(driver.GetCardVehicleUnitRecordsCount()))
 		data = append(data, vehicleUnitRecords...)
 	} else {
diff --git a/internal/card/gnss_places.go b/internal/card/gnss_places.go
index e4fc1b5..d8a341f 100644
--- a/internal/card/gnss_places.go
+++ b/internal/card/gnss_places.go
@@ -176,6 +176,9 @@ func appendCardGnssPlaces(dst []byte, gnssPlaces *cardv1.GnssPlaces) ([]byte, er
 
 	// Append newest record index (2 bytes)
 	newestRecordIndex := gnssPlaces.GetNewestRecordIndex()
+	if err := dd.CheckRange("newest record index", newestRecordIndex, 0xFFFF); err != nil {
+		return nil, err
+	}
 	dst = binary.BigEndian.AppendUint16(dst, uint16(newestRecordIndex))
 
 	// Append all GNSS accumulated driving records
diff --git a/internal/card/icc.go b/internal/card/icc.go
index 8606bee..93ae288 100644
--- a/internal/card/icc.go
+++ b/internal/card/icc.go
@@ -194,6 +194,9 @@ func appendIcc(dst []byte, icc *cardv1.Icc) ([]byte, error) {
 	}
 
 	// Append card personaliser ID (1 byte)
+	if err := dd.CheckRange("card personaliser id", icc.GetCardPersonaliserId(), 0xFF); err != nil {
+		return nil, err
+	}
 	dst = append(dst, byte(icc.GetCardPersonaliserId()))
 
 	// Append embedder IC assembler ID (5 bytes)
@@ -230,6 +233,9 @@ func appendEmbedderIcAssemblerId(dst []byte, eia *cardv1.Icc_EmbedderIcAssembler
 	}
 
 	// Append manufacturer information (1 byte)
+	if err := dd.CheckRange("manufacturer information", eia.GetManufacturerInformation(), 0xFF); err != nil {
+		return nil, err
+	}
 	dst = append(dst, byte(eia.GetManufacturerInformation()))
 
 	return dst, nil
diff --git a/internal/card/places.go b/internal/card/places.go
index 80e1ab8..92a478f 100644
--- a/internal/card/places.go
+++ b/internal/card/places.go
@@ -94,6 +94,9 @@ func appendPlaces(dst []byte, p *cardv1.Places) ([]byte, error) {
 		copy(canvas, rawData)
 
 		// Paint newest record index over canvas (1 byte for Gen1)
+		if err := dd.CheckRange("newest record index", p.GetNewestRecordIndex(), 0xFF); err != nil {
+			return nil, err
+		}
 		canvas[0] = byte(p.GetNewestRecordIndex())
 
 		// Paint each record over canvas
@@ -114,6 +117,9 @@ func appendPlaces(dst []byte, p *cardv1.Places) ([]byte, error) {
 	}
 
 	// Fall back to building from scratch
+	if err := dd.CheckRange("newest record index", p.GetNewestRecordIndex(), 0xFF); err != nil {
+		return nil, err
+	}
 	newestRecordIndex := byte(p.GetNewestRecordIndex())
 	dst = append(dst, newestRecordIndex)
 
diff --git a/internal/card/places_g2.go b/internal/card/places_g2.go
index 89b5525..b2d1dd2 100644
--- a/internal/card/places_g2.go
+++ b/internal/card/places_g2.go
@@ -95,6 +95,9 @@ func appendPlacesG2(dst []byte, p *cardv1.PlacesG2) ([]byte, error) {
 		copy(canvas, rawData)
 
 		// Paint newest record index over canvas (2 bytes for Gen2)
+		if err := dd.CheckRange("newest record index", p.GetNewestRecordIndex(), 0xFFFF); err != nil {
+			return nil, err
+		}
 		binary.BigEndian.PutUint16(canvas[0:2], uint16(p.GetNewestRecordIndex()))
 
 		// Paint each record over canvas
@@ -115,6 +118,9 @@ func appendPlacesG2(dst []byte, p *cardv1.PlacesG2) ([]byte, error) {
 	}
 
 	// Fall back to building from scratch
+	if err := dd.CheckRange("newest record index", p.GetNewestRecordIndex(), 0xFFFF); err != nil {
+		return nil, err
+	}
 	newestRecordIndex := uint16(p.GetNewestRecordIndex())
 	dst = binary.BigEndian.AppendUint16(dst, newestRecordIndex)
 
diff --git a/internal/card/specific_conditions_g2.go b/internal/card/specific_conditions_g2.go
index cffbb93..7e45945 100644
--- a/internal/card/specific_conditions_g2.go
+++ b/internal/card/specific_conditions_g2.go
@@ -84,6 +84,9 @@ func appendCardSpecificConditionsG2(data []byte, conditions *cardv1.SpecificCond
 		copy(canvas, rawData)
 
 		// Paint newest record pointer over canvas
+		if err := dd.CheckRange("newest record index", conditions.GetNewestRecordIndex(), 0xFFFF); err != nil {
+			return nil, err
+		}
 		binary.BigEndian.PutUint16(canvas[0:lenPointer], uint16(conditions.GetNewestRecordIndex()))
 
 		// Paint each record over canvas
@@ -111,6 +114,9 @@ func appendCardSpecificConditionsG2(data []byte, conditions *cardv1.SpecificCond
 fallback:
 	// Fall back to building from scratch
 	pointerBytes := make([]byte, 2)
+	if err := dd.CheckRange("newest record index", conditions.GetNewestRecordIndex(), 0xFFFF); err != nil {
+		return nil, err
+	}
 	binary.BigEndian.PutUint16(pointerBytes, uint16(conditions.GetNewestRecordIndex()))
 	data = append(data, pointerBytes...)
 
diff --git a/internal/card/vehicle_units_used.go b/internal/card/vehicle_units_used.go
index 62c6ff0..b914f43 100644
--- a/internal/card/vehicle_units_used.go
+++ b/internal/card/vehicle_units_used.go
@@ -177,6 +177,9 @@ func appendCardVehicleUnitsUsed(dst []byte, vehicleUnits *cardv1.VehicleUnitsUse
 
 	// Append newest record pointer (2 bytes)
 	newestRecordPointer := vehicleUnits.GetVehicleUnitPointerNewestRecord()
+	if err := dd.CheckRange("vehicle unit pointer newest record", newestRecordPointer, 0xFFFF); err != nil {
+		return nil, err
+	}
 	dst = binary.BigEndian.AppendUint16(dst, uint16(newestRecordPointer))
 
 	// Append all vehicle unit records
diff --git a/internal/card/vehicles_used.go b/internal/card/vehicles_used.go
index ef945c9..198d6dc 100644
--- a/internal/card/vehicles_used.go
+++ b/internal/card/vehicles_used.go
@@ -91,6 +91,9 @@ func appendVehiclesUsed(dst []byte, vehiclesUsed *cardv1.VehiclesUsed) ([]byte,
 		copy(canvas, rawData)
 
 		// Paint newest record index over canvas
+		if err := dd.CheckRange("newest record index", vehiclesUsed.GetNewestRecordIndex(), 0xFFFF); err != nil {
+			return nil, err
+		}
 		binary.BigEndian.PutUint16(canvas[0:2], uint16(vehiclesUsed.GetNewestRecordIndex()))
 
 		// Paint each record over canvas
@@ -111,6 +114,9 @@ func appendVehiclesUsed(dst []byte, vehiclesUsed *cardv1.VehiclesUsed) ([]byte,
 	}
 
 	// Fall back to building from scratch
+	if err := dd.CheckRange("newest record index", vehiclesUsed.GetNewestRecordIndex(), 0xFFFF); err != nil {
+		return nil, err
+	}
 	newestRecordIndex := uint16(vehiclesUsed.GetNewestRecordIndex())
 	dst = binary.BigEndian.AppendUint16(dst, newestRecordIndex)
 
diff --git a/internal/card/vehicles_used_g2.go b/internal/card/vehicles_used_g2.go
index 1694a59..59c4b7c 100644
--- a/internal/card/vehicles_used_g2.go
+++ b/internal/card/vehicles_used_g2.go
@@ -91,6 +91,9 @@ func appendVehiclesUsedG2(dst []byte, vehiclesUsed *cardv1.VehiclesUsedG2) ([]by
 		copy(canvas, rawData)
 
 		// Paint newest record index over canvas
+		if err := dd.CheckRange("newest record index", vehiclesUsed.GetNewestRecordIndex(), 0xFFFF); err != nil {
+			return nil, err
+		}
 		binary.BigEndian.PutUint16(canvas[0:2], uint16(vehiclesUsed.GetNewestRecordIndex()))
 
 		// Paint each record over canvas
@@ -111,6 +114,9 @@ func appendVehiclesUsedG2(dst []byte, vehiclesUsed *cardv1.VehiclesUsedG2) ([]by
 	}
 
 	// Fall back to building from scratch
+	if err := dd.CheckRange("newest record index", vehiclesUsed.GetNewestRecordIndex(), 0xFFFF); err != nil {
+		return nil, err
+	}
 	newestRecordIndex := uint16(vehiclesUsed.GetNewestRecordIndex())
 	dst = binary.BigEndian.AppendUint16(dst, newestRecordIndex)
 
diff --git a/internal/dd/activity_change_info.go b/internal/dd/activity_change_info.go
index 5fe9e5a..fbd54bb 100644
--- a/internal/dd/activity_change_info.go
+++ b/internal/dd/activity_change_info.go
@@ -132,6 +132,9 @@ func AppendActivityChangeInfo(dst []byte, ac *ddv1.ActivityChangeInfo) ([]byte,
 	if err != nil {
 		return nil, fmt.Errorf("failed to marshal activity: %w", err)
 	}
+	if err := CheckRange("time of change minutes", ac.GetTimeOfChangeMinutes(), 0x7FF); err != nil {
+		return nil, err
+	}
 	var aci uint16
 	aci |= (uint16(slot) & 0x1) << 15
 	aci |= (drivingStatus & 0x1) << 14
diff --git a/internal/dd/card_structure_version.go b/internal/dd/card_structure_version.go
index fc14add..c9ddaeb 100644
--- a/internal/dd/card_structure_version.go
+++ b/internal/dd/card_structure_version.go
@@ -67,6 +67,12 @@ func AppendCardStructureVersion(dst []byte, csv *ddv1.CardStructureVersion) ([]b
 			return append(dst, canvas[:]...), nil
 		}
 	}
+	if err := CheckRange("major version", csv.GetMajor(), 99); err != nil {
+		return nil, err
+	}
+	if err := CheckRange("minor version", csv.GetMinor(), 99); err != nil {
+		return nil, err
+	}
 	major := csv.GetMajor()
 	majorBCD := byte((major/10)<<4) | byte(major%10)
 	canvas[0] = majorBCD
diff --git a/internal/dd/card_vehicle_record.go b/internal/dd/card_vehicle_record.go
index 096ba9c..8ddf342 100644
--- a/internal/dd/card_vehicle_record.go
+++ b/internal/dd/card_vehicle_record.go
@@ -98,12 +98,18 @@ func AppendCardVehicleRecord(dst []byte, record *ddv1.CardVehicleRecord) ([]byte
 	var err error
 
 	// Odometer begin (3 bytes)
+	if err := CheckRange("vehicle odometer begin km", record.GetVehicleOdometerBeginKm(), 0xFFFFFF); err != nil {
+		return nil, err
+	}
 	odometerBegin := uint32(record.GetVehicleOdometerBeginKm())
 	canvas[0] = byte(odometerBegin >> 16)
 	canvas[1] = byte(odometerBegin >> 8)
 	canvas[2] = byte(odometerBegin)
 
 	// Odometer end (3 bytes)
+	if err := CheckRange("vehicle odometer end km", record.GetVehicleOdometerEndKm(), 0xFFFFFF); err != nil {
+		return nil, err
+	}
 	odometerEnd := uint32(record.GetVehicleOdometerEndKm())
 	canvas[3] = byte(odometerEnd >> 16)
 	canvas[4] = byte(odometerEnd >> 8)
diff --git a/internal/dd/card_vehicle_record_g2.go b/internal/dd/card_vehicle_record_g2.go
index 2ca8c5f..c4138a7 100644
--- a/internal/dd/card_vehicle_record_g2.go
+++ b/internal/dd/card_vehicle_record_g2.go
@@ -107,12 +107,18 @@ func AppendCardVehicleRecordG2(dst []byte, record *ddv1.CardVehicleRecordG2) ([]
 	var err error
 
 	// Odometer begin (3 bytes)
+	if err := CheckRange("vehicle odometer begin km", record.GetVehicleOdometerBeginKm(), 0xFFFFFF); err != nil {
+		return nil, err
+	}
 	odometerBegin := uint32(record.GetVehicleOdometerBeginKm())
 	canvas[0] = byte(odometerBegin >> 16)
 	canvas[1] = byte(odometerBegin >> 8)
 	canvas[2] = byte(odometerBegin)
 
 	// Odometer end (3 bytes)
+	if err := CheckRange("vehicle odometer end km", record.GetVehicleOdometerEndKm(), 0xFFFFFF); err != nil {
+		return nil, err
+	}
 	odometerEnd := uint32(record.GetVehicleOdometerEndKm())
 	canvas[3] = byte(odometerEnd >> 16)
 	canvas[4] = byte(odometerEnd >> 8)
diff --git a/internal/dd/date.go b/internal/dd/date.go
index a5cfeb0..68eb669 100644
--- a/internal/dd/date.go
+++ b/internal/dd/date.go
@@ -66,6 +66,15 @@ func AppendDate(dst []byte, date *ddv1.Date) ([]byte, error) {
 			return append(dst, canvas[:]...), nil
 		}
 	}
+	if err := CheckRange("year", date.GetYear(), 9999); err != nil {
+		return nil, err
+	}
+	if err := CheckRange("month", date.GetMonth(), 99); err != nil {
+		return nil, err
+	}
+	if err := CheckRange("day", date.GetDay(), 99); err != nil {
+		return nil, err
+	}
 	year := int(date.GetYear())
 	month := int(date.GetMonth())
 	day := int(date.GetDay())
diff --git a/internal/dd/extended_serial_number.go b/internal/dd/extended_serial_number.go
index 9f9129b..bdc4d82 100644
--- a/internal/dd/extended_serial_number.go
+++ b/internal/dd/extended_serial_number.go
@@ -3,6 +3,7 @@ package dd
 import (
 	"encoding/binary"
 	"fmt"
+	"math"
 
 	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
 )
@@ -90,6 +91,9 @@ func AppendExtendedSerialNumber(dst []byte, esn *ddv1.ExtendedSerialNumber) ([]b
 
 	// Append serial number (4 bytes, big-endian)
 	serialNumber := esn.GetSerialNumber()
+	if serialNumber < 0 || serialNumber > math.MaxUint32 {
+		return nil, fmt.Errorf("serial number out of range: %d", serialNumber)
+	}
 	dst = binary.BigEndian.AppendUint32(dst, uint32(serialNumber))
 
 	// Append month/year BCD (2 bytes, MMYY format)
@@ -107,6 +111,9 @@ func AppendExtendedSerialNumber(dst []byte, esn *ddv1.ExtendedSerialNumber) ([]b
 	dst = append(dst, equipmentTypeByte)
 
 	// Append manufacturer code (1 byte)
+	if err := CheckRange("manufacturer code", esn.GetManufacturerCode(), 0xFF); err != nil {
+		return nil, err
+	}
 	dst = append(dst, byte(esn.GetManufacturerCode()))
 
 	return dst, nil
@@ -124,6 +131,9 @@ func AppendExtendedSerialNumberAsString(dst []byte, esn *ddv1.ExtendedSerialNumb
 
 	// First 4 bytes: serial number (big-endian)
 	serialNumber := esn.GetSerialNumber()
+	if serialNumber < 0 || serialNumber > math.MaxUint32 {
+		return nil, fmt.Errorf("serial number out of range: %d", serialNumber)
+	}
 	if serialNumber != 0 {
 		binary.BigEndian.PutUint32(serialBytes[0:4], uint32(serialNumber))
 	}
@@ -150,6 +160,9 @@ func AppendExtendedSerialNumberAsString(dst []byte, esn *ddv1.ExtendedSerialNumb
 
 	// Last byte: manufacturer code
 	manufacturerCode := esn.GetManufacturerCode()
+	if err := CheckRange("manufacturer code", manufacturerCode, 0xFF); err != nil {
+		return nil, err
+	}
 	if manufacturerCode != 0 {
 		serialBytes[7] = byte(manufacturerCode)
 	}
diff --git a/internal/dd/geo_coordinates.go b/internal/dd/geo_coordinates.go
index ecd2029..e549998 100644
--- a/internal/dd/geo_coordinates.go
+++ b/internal/dd/geo_coordinates.go
@@ -65,6 +65,11 @@ func readInt24(data []byte) int32 {
 //
 // Unknown position marker: 0x7FFFFF (8388607 decimal)
 func AppendGeoCoordinates(dst []byte, geoCoords *ddv1.GeoCoordinates) ([]byte, error) {
+	for _, coordinate := range []int32{geoCoords.GetLatitude(), geoCoords.GetLongitude()} {
+		if coordinate < -1<<23 || coordinate >= 1<<23 {
+			return nil, fmt.Errorf("coordinate out of range: %d", coordinate)
+		}
+	}
 	// Append latitude (3-byte signed integer)
 	dst = appendInt24(dst, geoCoords.GetLatitude())
 	// Append longitude (3-byte signed integer)
diff --git a/internal/dd/gnss_place_auth_record.go b/internal/dd/gnss_place_auth_record.go
index 679409a..07b2282 100644
--- a/internal/dd/gnss_place_auth_record.go
+++ b/internal/dd/gnss_place_auth_record.go
@@ -106,6 +106,9 @@ func AppendGNSSPlaceAuthRecord(dst []byte, record *ddv1.GNSSPlaceAuthRecord) ([]
 	}
 
 	// Append gnssAccuracy (1 byte)
+	if err := CheckRange("gnss accuracy", record.GetGnssAccuracy(), 0xFF); err != nil {
+		return nil, err
+	}
 	dst = append(dst, byte(record.GetGnssAccuracy()))
 
 	// Append geoCoordinates (6 bytes)
@@ -118,6 +121,9 @@ func AppendGNSSPlaceAuthRecord(dst []byte, record *ddv1.GNSSPlaceAuthRecord) ([]
 	// Append authenticationStatus (1 byte)
 	var authStatus byte
 	if record.GetAuthenticationStatus() == ddv1.PositionAuthenticationStatus_POSITION_AUTHENTICATION_STATUS_UNRECOGNIZED {
+		if err := CheckRange("unrecognized authentication status", record.GetUnrecognizedAuthenticationStatus(), 0xFF); err != nil {
+			return nil, err
+		}
 		authStatus = byte(record.GetUnrecognizedAuthenticationStatus())
 	} else {
 		var err error
diff --git a/internal/dd/month_year.go b/internal/dd/month_year.go
index c9d0d7c..7fc87e8 100644
--- a/internal/dd/month_year.go
+++ b/internal/dd/month_year.go
@@ -87,6 +87,13 @@ func AppendMonthYear(dst []byte, monthYear *ddv1.MonthYear) ([]byte, error) {
 	month := monthYear.GetMonth()
 	year := monthYear.GetYear()
 
+	if err := CheckRange("month", month, 99); err != nil {
+		return nil, err
+	}
+	if year != 0 && (year < 2000 || year > 2099) {
+		return nil, fmt.Errorf("year out of range: %d (must be 2000-2099)", year)
+	}
+
 	// Convert 4-digit year to 2-digit for BCD encoding
 	year2Digit := year % 100
 
diff --git a/internal/dd/place_record.go b/internal/dd/place_record.go
index 79f3c68..7b33722 100644
--- a/internal/dd/place_record.go
+++ b/internal/dd/place_record.go
@@ -99,6 +99,9 @@ func AppendPlaceRecord(dst []byte, rec *ddv1.PlaceRecord) ([]byte, error) {
 	// Entry type (1 byte)
 	var entryTypeProtocol byte
 	if rec.GetEntryTypeDailyWorkPeriod() == ddv1.EntryTypeDailyWorkPeriod_ENTRY_TYPE_DAILY_WORK_PERIOD_UNRECOGNIZED {
+		if err := CheckRange("unrecognized entry type daily work period", rec.GetUnrecognizedEntryTypeDailyWorkPeriod(), 0xFF); err != nil {
+			return nil, err
+		}
 		entryTypeProtocol = byte(rec.GetUnrecognizedEntryTypeDailyWorkPeriod())
 	} else {
 		entryTypeProtocol, _ = MarshalEnum(rec.GetEntryTypeDailyWorkPeriod())
@@ -108,6 +111,9 @@ func AppendPlaceRecord(dst []byte, rec *ddv1.PlaceRecord) ([]byte, error) {
 	// Country (1 byte)
 	var countryProtocol byte
 	if rec.GetDailyWorkPeriodCountry() == ddv1.NationNumeric_NATION_NUMERIC_UNRECOGNIZED {
+		if err := CheckRange("unrecognized daily work period country", rec.GetUnrecognizedDailyWorkPeriodCountry(), 0xFF); err != nil {
+			return nil, err
+		}
 		countryProtocol = byte(rec.GetUnrecognizedDailyWorkPeriodCountry())
 	} else {
 		countryProtocol, _ = MarshalEnum(rec.GetDailyWorkPeriodCountry())
@@ -122,6 +128,9 @@ func AppendPlaceRecord(dst []byte, rec *ddv1.PlaceRecord) ([]byte, error) {
 	// Otherwise leave as zero (or preserved from raw_data)
 
 	// Odometer (3 bytes)
+	if err := CheckRange("vehicle odometer km", rec.GetVehicleOdometerKm(), 0xFFFFFF); err != nil {
+		return nil, err
+	}
 	odometerBytes := AppendOdometer(nil, uint32(rec.GetVehicleOdometerKm()))
 	copy(canvas[7:10], odometerBytes)
 
diff --git a/internal/dd/place_record_g2.go b/internal/dd/place_record_g2.go
index 489dae5..11fdc8e 100644
--- a/internal/dd/place_record_g2.go
+++ b/internal/dd/place_record_g2.go
@@ -107,6 +107,9 @@ func AppendPlaceRecordG2(dst []byte, rec *ddv1.PlaceRecordG2) ([]byte, error) {
 	// Entry type (1 byte)
 	var entryTypeProtocol byte
 	if rec.GetEntryTypeDailyWorkPeriod() == ddv1.EntryTypeDailyWorkPeriod_ENTRY_TYPE_DAILY_WORK_PERIOD_UNRECOGNIZED {
+		if err := CheckRange("unrecognized entry type daily work period", rec.GetUnrecognizedEntryTypeDailyWorkPeriod(), 0xFF); err != nil {
+			return nil, err
+		}
 		entryTypeProtocol = byte(rec.GetUnrecognizedEntryTypeDailyWorkPeriod())
 	} else {
 		entryTypeProtocol, _ = MarshalEnum(rec.GetEntryTypeDailyWorkPeriod())
@@ -116,6 +119,9 @@ func AppendPlaceRecordG2(dst []byte, rec *ddv1.PlaceRecordG2) ([]byte, error) {
 	// Country (1 byte)
 	var countryProtocol byte
 	if rec.GetDailyWorkPeriodCountry() == ddv1.NationNumeric_NATION_NUMERIC_UNRECOGNIZED {
+		if err := CheckRange("unrecognized daily work period country", rec.GetUnrecognizedDailyWorkPeriodCountry(), 0xFF); err != nil {
+			return nil, err
+		}
 		countryProtocol = byte(rec.GetUnrecognizedDailyWorkPeriodCountry())
 	} else {
 		countryProtocol, _ = MarshalEnum(rec.GetDailyWorkPeriodCountry())
@@ -130,6 +136,9 @@ func AppendPlaceRecordG2(dst []byte, rec *ddv1.PlaceRecordG2) ([]byte, error) {
 	// Otherwise leave as zero (or preserved from raw_data)
 
 	// Odometer (3 bytes)
+	if err := CheckRange("vehicle odometer km", rec.GetVehicleOdometerKm(), 0xFFFFFF); err != nil {
+		return nil, err
+	}
 	odometerBytes := AppendOdometer(nil, uint32(rec.GetVehicleOdometerKm()))
 	copy(canvas[7:10], odometerBytes)
 
diff --git a/internal/dd/range.go b/internal/dd/range.go
new file mode 100644
index 0000000..eb433c9
--- /dev/null
+++ b/internal/dd/range.go
@@ -0,0 +1,12 @@
+package dd
+
+import "fmt"
+
+// CheckRange reports an error for an integer that does not fit its binary field,
+// which holds values from 0 to max.
+func CheckRange(name string, value, max int32) error {
+	if value < 0 || value > max {
+		return fmt.Errorf("%s out of range: %d (must be 0-%d)", name, value, max)
+	}
+	return nil
+}
diff --git a/internal/dd/specific_condition_record.go b/internal/dd/specific_condition_record.go
index 3dafd27..9ae1096 100644
--- a/internal/dd/specific_condition_record.go
+++ b/internal/dd/specific_condition_record.go
@@ -77,6 +77,9 @@ func AppendSpecificConditionRecord(dst []byte, record *ddv1.SpecificConditionRec
 	// Append specificConditionType (1 byte)
 	var conditionType byte
 	if record.GetSpecificConditionType() == ddv1.SpecificConditionType_SPECIFIC_CONDITION_TYPE_UNRECOGNIZED {
+		if err := CheckRange("unrecognized specific condition type", record.GetUnrecognizedSpecificConditionType(), 0xFF); err != nil {
+			return nil, err
+		}
 		conditionType = byte(record.GetUnrecognizedSpecificConditionType())
 	} else {
 		var err error
diff --git a/internal/dd/time_real.go b/internal/dd/time_real.go
index 568c20e..e2e6b27 100644
--- a/internal/dd/time_real.go
+++ b/internal/dd/time_real.go
@@ -3,6 +3,7 @@ package dd
 import (
 	"encoding/binary"
 	"fmt"
+	"math"
 	"time"
 
 	"google.golang.org/protobuf/types/known/timestamppb"
@@ -41,7 +42,10 @@ func (opts UnmarshalOptions) UnmarshalTimeReal(data []byte) (*timestamppb.Timest
 // Binary Layout (4 bytes):
 //   - Seconds since Unix epoch (4 bytes): Big-endian uint32
 func AppendTimeReal(dst []byte, ts *timestamppb.Timestamp) ([]byte, error) {
-	if ts.GetNanos() > 0 {
+	if seconds := ts.GetSeconds(); seconds < 0 || seconds > math.MaxUint32 {
+		return nil, fmt.Errorf("time out of range for TimeReal: %d seconds", seconds)
+	}
+	if ts.GetNanos() != 0 {
 		return nil, fmt.Errorf("nanosecond resolution is not supported for TimeReal")
 	}
 	return binary.BigEndian.AppendUint32(dst, uint32(ts.GetSeconds())), nil
diff --git a/internal/dd/vu_card_iw_record.go b/internal/dd/vu_card_iw_record.go
index c14147f..2ee245c 100644
--- a/internal/dd/vu_card_iw_record.go
+++ b/internal/dd/vu_card_iw_record.go
@@ -185,6 +185,9 @@ func AppendVuCardIWRecord(dst []byte, record *ddv1.VuCardIWRecord) ([]byte, erro
 	offset += 4
 
 	// vehicleOdometerValueAtInsertion (3 bytes)
+	if err := CheckRange("odometer at insertion km", record.GetOdometerAtInsertionKm(), 0xFFFFFF); err != nil {
+		return nil, err
+	}
 	odometerAtInsertionBytes := AppendOdometer(nil, uint32(record.GetOdometerAtInsertionKm()))
 	copy(canvas[offset:offset+3], odometerAtInsertionBytes)
 	offset += 3
@@ -203,6 +206,9 @@ func AppendVuCardIWRecord(dst []byte, record *ddv1.VuCardIWRecord) ([]byte, erro
 	offset += 4
 
 	// vehicleOdometerValueAtWithdrawal (3 bytes)
+	if err := CheckRange("odometer at withdrawal km", record.GetOdometerAtWithdrawalKm(), 0xFFFFFF); err != nil {
+		return nil, err
+	}
 	odometerAtWithdrawalBytes := AppendOdometer(nil, uint32(record.GetOdometerAtWithdrawalKm()))
 	copy(canvas[offset:offset+3], odometerAtWithdrawalBytes)
 	offset += 3
-- 
2.43.0


From 39fc3c1e0bbc8d13ab24aab0a1baa9126a8cfefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:47 +0000
Subject: [PATCH 53/62] fix: reject codes that have no protocol value instead
 of writing zero

---
 internal/card/application_identification.go    |  5 ++++-
 internal/card/application_identification_g2.go |  5 ++++-
 internal/card/events.go                        |  6 ++++--
 internal/card/faults.go                        |  6 ++++--
 internal/dd/place_record.go                    | 10 ++++++++--
 internal/dd/place_record_g2.go                 | 10 ++++++++--
 internal/dd/vu_card_iw_record.go               |  5 ++++-
 7 files changed, 36 insertions(+), 11 deletions(-)

diff --git a/internal/card/application_identification.go b/internal/card/application_identification.go
index 3b13c4d..82d219c 100644
--- a/internal/card/application_identification.go
+++ b/internal/card/application_identification.go
@@ -130,7 +130,10 @@ func appendCardApplicationIdentification(data []byte, appId *cardv1.ApplicationI
 
 	// Type of tachograph card ID (1 byte)
 	if appId.HasTypeOfTachographCardId() {
-		protocolValue, _ := dd.MarshalEnum(appId.GetTypeOfTachographCardId())
+		protocolValue, err := dd.MarshalEnum(appId.GetTypeOfTachographCardId())
+		if err != nil && appId.GetTypeOfTachographCardId() != 0 {
+			return nil, fmt.Errorf("failed to marshal type of tachograph card id: %w", err)
+		}
 		data = append(data, protocolValue)
 	} else {
 		data = append(data, 0x00)
diff --git a/internal/card/application_identification_g2.go b/internal/card/application_identification_g2.go
index b80ea94..21ee112 100644
--- a/internal/card/application_identification_g2.go
+++ b/internal/card/application_identification_g2.go
@@ -158,7 +158,10 @@ func appendCardApplicationIdentificationG2(data []byte, appId *cardv1.Applicatio
 
 	// Type of tachograph card ID (1 byte)
 	if appId.HasTypeOfTachographCardId() {
-		protocolValue, _ := dd.MarshalEnum(appId.GetTypeOfTachographCardId())
+		protocolValue, err := dd.MarshalEnum(appId.GetTypeOfTachographCardId())
+		if err != nil && appId.GetTypeOfTachographCardId() != 0 {
+			return nil, fmt.Errorf("failed to marshal type of tachograph card id: %w", err)
+		}
 		data = append(data, protocolValue)
 	} else {
 		data = append(data, 0x00)
diff --git a/internal/card/events.go b/internal/card/events.go
index 612ec67..1a5cad7 100644
--- a/internal/card/events.go
+++ b/internal/card/events.go
@@ -199,10 +199,12 @@ func appendEventRecord(dst []byte, record *cardv1.EventsData_Record) ([]byte, er
 		return append(dst, record.GetRawData()...), nil
 	}
 
-	protocolValue, _ := dd.MarshalEnum(record.GetEventType())
+	protocolValue, err := dd.MarshalEnum(record.GetEventType())
+	if err != nil && record.GetEventType() != 0 {
+		return nil, fmt.Errorf("failed to marshal event type: %w", err)
+	}
 	dst = append(dst, protocolValue)
 
-	var err error
 	dst, err = dd.AppendTimeReal(dst, record.GetEventBeginTime())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append event begin time: %w", err)
diff --git a/internal/card/faults.go b/internal/card/faults.go
index 3040996..d6841ab 100644
--- a/internal/card/faults.go
+++ b/internal/card/faults.go
@@ -199,10 +199,12 @@ func appendFaultRecord(dst []byte, record *cardv1.FaultsData_Record) ([]byte, er
 		return append(dst, record.GetRawData()...), nil
 	}
 
-	protocolValue, _ := dd.MarshalEnum(record.GetFaultType())
+	protocolValue, err := dd.MarshalEnum(record.GetFaultType())
+	if err != nil && record.GetFaultType() != 0 {
+		return nil, fmt.Errorf("failed to marshal fault type: %w", err)
+	}
 	dst = append(dst, protocolValue)
 
-	var err error
 	dst, err = dd.AppendTimeReal(dst, record.GetFaultBeginTime())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append fault begin time: %w", err)
diff --git a/internal/dd/place_record.go b/internal/dd/place_record.go
index 7b33722..a02cf30 100644
--- a/internal/dd/place_record.go
+++ b/internal/dd/place_record.go
@@ -104,7 +104,10 @@ func AppendPlaceRecord(dst []byte, rec *ddv1.PlaceRecord) ([]byte, error) {
 		}
 		entryTypeProtocol = byte(rec.GetUnrecognizedEntryTypeDailyWorkPeriod())
 	} else {
-		entryTypeProtocol, _ = MarshalEnum(rec.GetEntryTypeDailyWorkPeriod())
+		entryTypeProtocol, err = MarshalEnum(rec.GetEntryTypeDailyWorkPeriod())
+		if err != nil && rec.GetEntryTypeDailyWorkPeriod() != 0 {
+			return nil, fmt.Errorf("failed to marshal entry type: %w", err)
+		}
 	}
 	canvas[4] = entryTypeProtocol
 
@@ -116,7 +119,10 @@ func AppendPlaceRecord(dst []byte, rec *ddv1.PlaceRecord) ([]byte, error) {
 		}
 		countryProtocol = byte(rec.GetUnrecognizedDailyWorkPeriodCountry())
 	} else {
-		countryProtocol, _ = MarshalEnum(rec.GetDailyWorkPeriodCountry())
+		countryProtocol, err = MarshalEnum(rec.GetDailyWorkPeriodCountry())
+		if err != nil && rec.GetDailyWorkPeriodCountry() != 0 {
+			return nil, fmt.Errorf("failed to marshal country: %w", err)
+		}
 	}
 	canvas[5] = countryProtocol
 
diff --git a/internal/dd/place_record_g2.go b/internal/dd/place_record_g2.go
index 11fdc8e..839d2d6 100644
--- a/internal/dd/place_record_g2.go
+++ b/internal/dd/place_record_g2.go
@@ -112,7 +112,10 @@ func AppendPlaceRecordG2(dst []byte, rec *ddv1.PlaceRecordG2) ([]byte, error) {
 		}
 		entryTypeProtocol = byte(rec.GetUnrecognizedEntryTypeDailyWorkPeriod())
 	} else {
-		entryTypeProtocol, _ = MarshalEnum(rec.GetEntryTypeDailyWorkPeriod())
+		entryTypeProtocol, err = MarshalEnum(rec.GetEntryTypeDailyWorkPeriod())
+		if err != nil && rec.GetEntryTypeDailyWorkPeriod() != 0 {
+			return nil, fmt.Errorf("failed to marshal entry type: %w", err)
+		}
 	}
 	canvas[4] = entryTypeProtocol
 
@@ -124,7 +127,10 @@ func AppendPlaceRecordG2(dst []byte, rec *ddv1.PlaceRecordG2) ([]byte, error) {
 		}
 		countryProtocol = byte(rec.GetUnrecognizedDailyWorkPeriodCountry())
 	} else {
-		countryProtocol, _ = MarshalEnum(rec.GetDailyWorkPeriodCountry())
+		countryProtocol, err = MarshalEnum(rec.GetDailyWorkPeriodCountry())
+		if err != nil && rec.GetDailyWorkPeriodCountry() != 0 {
+			return nil, fmt.Errorf("failed to marshal country: %w", err)
+		}
 	}
 	canvas[5] = countryProtocol
 
diff --git a/internal/dd/vu_card_iw_record.go b/internal/dd/vu_card_iw_record.go
index 2ee245c..4a5b724 100644
--- a/internal/dd/vu_card_iw_record.go
+++ b/internal/dd/vu_card_iw_record.go
@@ -193,7 +193,10 @@ func AppendVuCardIWRecord(dst []byte, record *ddv1.VuCardIWRecord) ([]byte, erro
 	offset += 3
 
 	// cardSlotNumber (1 byte)
-	cardSlotNumberByte, _ := MarshalEnum(record.GetCardSlotNumber())
+	cardSlotNumberByte, err := MarshalEnum(record.GetCardSlotNumber())
+	if err != nil && record.GetCardSlotNumber() != 0 {
+		return nil, fmt.Errorf("failed to marshal card slot number: %w", err)
+	}
 	canvas[offset] = cardSlotNumberByte
 	offset += 1
 
-- 
2.43.0


From c08474bb61288859c485c86fadf53084d7393725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:07 +0000
Subject: [PATCH 54/62] fix: reject files that lack the content of their type

---
 marshal.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/marshal.go b/marshal.go
index aae357f..05da761 100644
--- a/marshal.go
+++ b/marshal.go
@@ -12,10 +12,16 @@ import (
 func MarshalFile(file *tachographv1.File) ([]byte, error) {
 	switch file.GetType() {
 	case tachographv1.File_DRIVER_CARD:
+		if !file.HasDriverCard() {
+			return nil, fmt.Errorf("file of type %v has no driver card", file.GetType())
+		}
 		return card.MarshalDriverCardFile(file.GetDriverCard())
 	case tachographv1.File_VEHICLE_UNIT:
 		return vu.MarshalVehicleUnitFile(file.GetVehicleUnit())
 	case tachographv1.File_RAW_CARD:
+		if !file.HasRawCard() {
+			return nil, fmt.Errorf("file of type %v has no raw card", file.GetType())
+		}
 		return card.MarshalRawCardFile(file.GetRawCard())
 	default:
 		return nil, fmt.Errorf("unsupported file type for marshaling: %v", file.GetType())
-- 
2.43.0


From 39bad6bf7fa19da12b0d41a2a3e9159eb1fefcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 55/62] fix: read driver activity data without a buffer

---
 internal/card/activity.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/card/activity.go b/internal/card/activity.go
index f031820..58d1b1b 100644
--- a/internal/card/activity.go
+++ b/internal/card/activity.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"fmt"
+	"io"
 
 	"github.com/way-platform/tachograph-go/internal/dd"
 
@@ -61,7 +62,7 @@ func (opts UnmarshalOptions) unmarshalDriverActivityData(data []byte) (*cardv1.D
 
 	// The rest of the data is the cyclic buffer of daily records.
 	activityData := make([]byte, r.Len())
-	if _, err := r.Read(activityData); err != nil {
+	if _, err := io.ReadFull(r, activityData); err != nil {
 		return nil, fmt.Errorf("failed to read activity daily records: %w", err)
 	}
 
-- 
2.43.0


From 5c105896bdc5080115d632d0457b31f56fca2d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 56/62] fix: reject characters outside ASCII in IA5 strings

---
 internal/dd/ia5_string_value.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/dd/ia5_string_value.go b/internal/dd/ia5_string_value.go
index 27021a9..de44aa5 100644
--- a/internal/dd/ia5_string_value.go
+++ b/internal/dd/ia5_string_value.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"io"
 	"strings"
+	"unicode"
 	"unicode/utf8"
 
 	ddv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/dd/v1"
@@ -85,6 +86,11 @@ func AppendIa5StringValue(dst []byte, sv *ddv1.Ia5StringValue) ([]byte, error) {
 
 	// Fallback: use value string and pad with spaces
 	value := sv.GetValue()
+	for _, r := range value {
+		if r > unicode.MaxASCII {
+			return nil, fmt.Errorf("IA5 string value '%s' has characters that are not ASCII", value)
+		}
+	}
 	if len(value) > length {
 		return nil, fmt.Errorf("string value '%s' is longer than the allowed length %d", value, length)
 	}
-- 
2.43.0


From d7d286be33b962cb41e67487092b54f36d2eb2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:32 +0000
Subject: [PATCH 57/62] fix: write regions of places instead of retained or cut
 off bytes

---
 internal/dd/place_record.go    | 5 ++++-
 internal/dd/place_record_g2.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/dd/place_record.go b/internal/dd/place_record.go
index a02cf30..be81db5 100644
--- a/internal/dd/place_record.go
+++ b/internal/dd/place_record.go
@@ -128,10 +128,13 @@ func AppendPlaceRecord(dst []byte, rec *ddv1.PlaceRecord) ([]byte, error) {
 
 	// Region (1 byte)
 	regionBytes := rec.GetDailyWorkPeriodRegion()
+	if len(regionBytes) > 1 {
+		return nil, fmt.Errorf("daily work period region too long: %d bytes", len(regionBytes))
+	}
+	canvas[6] = 0
 	if len(regionBytes) > 0 {
 		canvas[6] = regionBytes[0]
 	}
-	// Otherwise leave as zero (or preserved from raw_data)
 
 	// Odometer (3 bytes)
 	if err := CheckRange("vehicle odometer km", rec.GetVehicleOdometerKm(), 0xFFFFFF); err != nil {
diff --git a/internal/dd/place_record_g2.go b/internal/dd/place_record_g2.go
index 839d2d6..27ae0ee 100644
--- a/internal/dd/place_record_g2.go
+++ b/internal/dd/place_record_g2.go
@@ -136,10 +136,13 @@ func AppendPlaceRecordG2(dst []byte, rec *ddv1.PlaceRecordG2) ([]byte, error) {
 
 	// Region (1 byte)
 	regionBytes := rec.GetDailyWorkPeriodRegion()
+	if len(regionBytes) > 1 {
+		return nil, fmt.Errorf("daily work period region too long: %d bytes", len(regionBytes))
+	}
+	canvas[6] = 0
 	if len(regionBytes) > 0 {
 		canvas[6] = regionBytes[0]
 	}
-	// Otherwise leave as zero (or preserved from raw_data)
 
 	// Odometer (3 bytes)
 	if err := CheckRange("vehicle odometer km", rec.GetVehicleOdometerKm(), 0xFFFFFF); err != nil {
-- 
2.43.0


From 15108b0b7f9731386f07236df51e6a96116d5450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:38 +0000
Subject: [PATCH 58/62] fix: reject parts of card files that are missing or of
 another width

---
 internal/card/control_activity.go   |  7 +++++--
 internal/card/driving_licence.go    |  7 +++++++
 internal/card/events.go             |  3 +++
 internal/card/faults.go             |  3 +++
 internal/card/gnss_places.go        |  2 +-
 internal/card/ic.go                 | 21 +++++++------------
 internal/card/icc.go                | 14 +++++++++++++
 internal/card/identification.go     | 31 ++++++++++++++++++++++++-----
 internal/card/vehicle_units_used.go |  6 +++---
 internal/dd/range.go                |  8 ++++++++
 10 files changed, 77 insertions(+), 25 deletions(-)

diff --git a/internal/card/control_activity.go b/internal/card/control_activity.go
index dbf3eb3..fff2dc7 100644
--- a/internal/card/control_activity.go
+++ b/internal/card/control_activity.go
@@ -145,10 +145,13 @@ func appendCardControlActivityData(data []byte, controlData *cardv1.ControlActiv
 	if !controlData.GetValid() {
 		// Non-valid record: use preserved raw data
 		rawData := controlData.GetRawData()
-		if len(rawData) != 46 {
-			// Fallback to zeros if raw data is invalid
+		if len(rawData) == 0 {
+			// Fallback to zeros without raw data
 			return append(data, make([]byte, 46)...), nil
 		}
+		if err := dd.CheckLength("control activity raw_data", len(rawData), 46); err != nil {
+			return nil, err
+		}
 		return append(data, rawData...), nil
 	}
 
diff --git a/internal/card/driving_licence.go b/internal/card/driving_licence.go
index 9b044ce..3592e8a 100644
--- a/internal/card/driving_licence.go
+++ b/internal/card/driving_licence.go
@@ -85,10 +85,14 @@ func appendDrivingLicenceInfo(dst []byte, dli *cardv1.DrivingLicenceInfo) ([]byt
 		return dst, nil
 	}
 	var err error
+	start := len(dst)
 	dst, err = dd.AppendStringValue(dst, dli.GetDrivingLicenceIssuingAuthority())
 	if err != nil {
 		return nil, err
 	}
+	if err := dd.CheckLength("driving licence issuing authority", len(dst)-start, 36); err != nil {
+		return nil, err
+	}
 	// Marshal nation enum to protocol value
 	nationByte, err := dd.MarshalEnum(dli.GetDrivingLicenceIssuingNation())
 	if err != nil {
@@ -99,5 +103,8 @@ func appendDrivingLicenceInfo(dst []byte, dli *cardv1.DrivingLicenceInfo) ([]byt
 	if err != nil {
 		return nil, fmt.Errorf("failed to append driving licence number: %w", err)
 	}
+	if err := dd.CheckLength("driving licence number", len(dst)-start-37, 16); err != nil {
+		return nil, err
+	}
 	return dst, nil
 }
diff --git a/internal/card/events.go b/internal/card/events.go
index 1a5cad7..3f3d50e 100644
--- a/internal/card/events.go
+++ b/internal/card/events.go
@@ -196,6 +196,9 @@ func appendEventsData(dst []byte, data *cardv1.EventsData) ([]byte, error) {
 //	}
 func appendEventRecord(dst []byte, record *cardv1.EventsData_Record) ([]byte, error) {
 	if !record.GetValid() {
+		if err := dd.CheckLength("event record raw_data", len(record.GetRawData()), cardEventRecordSize); err != nil {
+			return nil, err
+		}
 		return append(dst, record.GetRawData()...), nil
 	}
 
diff --git a/internal/card/faults.go b/internal/card/faults.go
index d6841ab..43693fe 100644
--- a/internal/card/faults.go
+++ b/internal/card/faults.go
@@ -196,6 +196,9 @@ func appendFaultsData(dst []byte, data *cardv1.FaultsData) ([]byte, error) {
 //	}
 func appendFaultRecord(dst []byte, record *cardv1.FaultsData_Record) ([]byte, error) {
 	if !record.GetValid() {
+		if err := dd.CheckLength("fault record raw_data", len(record.GetRawData()), cardFaultRecordSize); err != nil {
+			return nil, err
+		}
 		return append(dst, record.GetRawData()...), nil
 	}
 
diff --git a/internal/card/gnss_places.go b/internal/card/gnss_places.go
index d8a341f..a5aa725 100644
--- a/internal/card/gnss_places.go
+++ b/internal/card/gnss_places.go
@@ -203,7 +203,7 @@ func appendCardGnssPlaces(dst []byte, gnssPlaces *cardv1.GnssPlaces) ([]byte, er
 //   - 3 bytes: OdometerShort vehicleOdometerValue
 func appendGNSSAccumulatedDrivingRecord(dst []byte, record *cardv1.GnssPlaces_Record) ([]byte, error) {
 	if record == nil {
-		return dst, nil
+		return nil, fmt.Errorf("record cannot be nil")
 	}
 
 	// Append timestamp (TimeReal - 4 bytes)
diff --git a/internal/card/ic.go b/internal/card/ic.go
index 43677e9..0c0db56 100644
--- a/internal/card/ic.go
+++ b/internal/card/ic.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 
+	"github.com/way-platform/tachograph-go/internal/dd"
 	cardv1 "github.com/way-platform/tachograph-go/proto/gen/go/wayplatform/connect/tachograph/card/v1"
 )
 
@@ -70,25 +71,17 @@ func appendCardIc(data []byte, ic *cardv1.Ic) ([]byte, error) {
 
 	// Append IC Serial Number (4 bytes)
 	serialBytes := ic.GetIcSerialNumber()
-	if len(serialBytes) >= lenIcSerialNumber {
-		data = append(data, serialBytes[:lenIcSerialNumber]...)
-	} else {
-		// Pad with zeros
-		padded := make([]byte, lenIcSerialNumber)
-		copy(padded, serialBytes)
-		data = append(data, padded...)
+	if err := dd.CheckLength("ic serial number", len(serialBytes), lenIcSerialNumber); err != nil {
+		return nil, err
 	}
+	data = append(data, serialBytes...)
 
 	// Append IC Manufacturing References (4 bytes)
 	mfgBytes := ic.GetIcManufacturingReferences()
-	if len(mfgBytes) >= lenIcManufacturingReferences {
-		data = append(data, mfgBytes[:lenIcManufacturingReferences]...)
-	} else {
-		// Pad with zeros
-		padded := make([]byte, lenIcManufacturingReferences)
-		copy(padded, mfgBytes)
-		data = append(data, padded...)
+	if err := dd.CheckLength("ic manufacturing references", len(mfgBytes), lenIcManufacturingReferences); err != nil {
+		return nil, err
 	}
+	data = append(data, mfgBytes...)
 
 	return data, nil
 }
diff --git a/internal/card/icc.go b/internal/card/icc.go
index 93ae288..6653f15 100644
--- a/internal/card/icc.go
+++ b/internal/card/icc.go
@@ -188,10 +188,14 @@ func appendIcc(dst []byte, icc *cardv1.Icc) ([]byte, error) {
 	}
 
 	// Append card approval number (8 bytes)
+	start := len(dst)
 	dst, err = dd.AppendIa5StringValue(dst, icc.GetCardApprovalNumber())
 	if err != nil {
 		return nil, err
 	}
+	if err := dd.CheckLength("card approval number", len(dst)-start, lenCardApprovalNumber); err != nil {
+		return nil, err
+	}
 
 	// Append card personaliser ID (1 byte)
 	if err := dd.CheckRange("card personaliser id", icc.GetCardPersonaliserId(), 0xFF); err != nil {
@@ -206,6 +210,9 @@ func appendIcc(dst []byte, icc *cardv1.Icc) ([]byte, error) {
 	}
 
 	// Append IC identifier (2 bytes)
+	if err := dd.CheckLength("ic identifier", len(icc.GetIcIdentifier()), lenIcIdentifier); err != nil {
+		return nil, err
+	}
 	dst = append(dst, icc.GetIcIdentifier()...)
 	return dst, nil
 }
@@ -219,18 +226,25 @@ func appendEmbedderIcAssemblerId(dst []byte, eia *cardv1.Icc_EmbedderIcAssembler
 		return append(dst, make([]byte, lenEmbedderIcAssemblerId)...), nil
 	}
 
+	start := len(dst)
 	var err error
 	// Append country code (2 bytes, IA5String)
 	dst, err = dd.AppendIa5StringValue(dst, eia.GetCountryCode())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append country code: %w", err)
 	}
+	if err := dd.CheckLength("country code", len(dst)-start, 2); err != nil {
+		return nil, err
+	}
 
 	// Append module embedder (2 bytes, IA5String)
 	dst, err = dd.AppendIa5StringValue(dst, eia.GetModuleEmbedder())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append module embedder: %w", err)
 	}
+	if err := dd.CheckLength("module embedder", len(dst)-start-2, 2); err != nil {
+		return nil, err
+	}
 
 	// Append manufacturer information (1 byte)
 	if err := dd.CheckRange("manufacturer information", eia.GetManufacturerInformation(), 0xFF); err != nil {
diff --git a/internal/card/identification.go b/internal/card/identification.go
index 32d954e..a4d17a5 100644
--- a/internal/card/identification.go
+++ b/internal/card/identification.go
@@ -91,9 +91,7 @@ func (opts UnmarshalOptions) unmarshalIdentification(data []byte) (*cardv1.Ident
 		// Check if bytes 14 and 15 are single digits (0-9)
 		replacementByte := cardNumberData[14]
 		renewalByte := cardNumberData[15]
-		// (the regulation counts the indices 0 to 9, then A to Z)
-		isIndex := func(b byte) bool { return b >= '0' && b <= '9' || b >= 'A' && b <= 'Z' }
-		if isIndex(replacementByte) && isIndex(renewalByte) {
+		if isCardIndex(replacementByte) && isCardIndex(renewalByte) {
 			// This looks like a driver card format
 			driverID := &ddv1.DriverIdentification{}
 			driverID.SetDriverIdentificationNumber(driverIdentification)
@@ -295,7 +293,7 @@ func (opts UnmarshalOptions) unmarshalIdentification(data []byte) (*cardv1.Ident
 //	}
 func appendCardIdentification(dst []byte, id *cardv1.Identification_Card) ([]byte, error) {
 	if id == nil {
-		return dst, nil
+		return nil, fmt.Errorf("card identification cannot be nil")
 	}
 	// Append cardIssuingMemberState (1 byte) - get protocol value from enum
 	memberState := id.GetCardIssuingMemberState()
@@ -401,11 +399,18 @@ func appendCardIdentification(dst []byte, id *cardv1.Identification_Card) ([]byt
 	if err := paintCardNumber(cardNumberBytes, id); err != nil {
 		return nil, err
 	}
+	if id.HasDriverIdentification() && !(isCardIndex(cardNumberBytes[14]) && isCardIndex(cardNumberBytes[15])) {
+		return nil, fmt.Errorf("card replacement and renewal index must be 0-9 or A-Z, got %q and %q", cardNumberBytes[14], cardNumberBytes[15])
+	}
 	dst = append(dst, cardNumberBytes...)
+	start := len(dst)
 	dst, err = dd.AppendStringValue(dst, id.GetCardIssuingAuthorityName())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append card issuing authority name: %w", err)
 	}
+	if err := dd.CheckLength("card issuing authority name", len(dst)-start, 36); err != nil {
+		return nil, err
+	}
 	dst, err = dd.AppendTimeReal(dst, id.GetCardIssueDate())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append card issue date: %w", err)
@@ -472,7 +477,7 @@ func paintCardNumber(cardNumber []byte, id *cardv1.Identification_Card) error {
 //	}
 func appendDriverCardHolderIdentification(dst []byte, h *cardv1.Identification_DriverCardHolder) ([]byte, error) {
 	if h == nil {
-		return dst, nil
+		return nil, fmt.Errorf("driver card holder identification cannot be nil")
 	}
 	var err error
 	nameBlock := make([]byte, 0, 72)
@@ -480,10 +485,16 @@ func appendDriverCardHolderIdentification(dst []byte, h *cardv1.Identification_D
 	if err != nil {
 		return nil, fmt.Errorf("failed to append card holder surname: %w", err)
 	}
+	if err := dd.CheckLength("card holder surname", len(nameBlock), 36); err != nil {
+		return nil, err
+	}
 	nameBlock, err = dd.AppendStringValue(nameBlock, h.GetCardHolderFirstNames())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append card holder first names: %w", err)
 	}
+	if err := dd.CheckLength("card holder first names", len(nameBlock)-36, 36); err != nil {
+		return nil, err
+	}
 	dst = append(dst, nameBlock...)
 
 	birthDate := h.GetCardHolderBirthDate()
@@ -497,10 +508,14 @@ func appendDriverCardHolderIdentification(dst []byte, h *cardv1.Identification_D
 		dst = append(dst, 0x00, 0x00, 0x00, 0x00)
 	}
 
+	start := len(dst)
 	dst, err = dd.AppendIa5StringValue(dst, h.GetCardHolderPreferredLanguage())
 	if err != nil {
 		return nil, fmt.Errorf("failed to append preferred language: %w", err)
 	}
+	if err := dd.CheckLength("preferred language", len(dst)-start, 2); err != nil {
+		return nil, err
+	}
 	return dst, nil
 }
 
@@ -706,3 +721,9 @@ func AnonymizeIdentification(id *cardv1.Identification) *cardv1.Identification {
 
 	return result
 }
+
+// isCardIndex reports whether b is a card replacement or renewal index of a driver card.
+// The regulation counts the indices 0 to 9, then A to Z.
+func isCardIndex(b byte) bool {
+	return b >= '0' && b <= '9' || b >= 'A' && b <= 'Z'
+}
diff --git a/internal/card/vehicle_units_used.go b/internal/card/vehicle_units_used.go
index b914f43..de0c53a 100644
--- a/internal/card/vehicle_units_used.go
+++ b/internal/card/vehicle_units_used.go
@@ -205,7 +205,7 @@ func appendCardVehicleUnitsUsed(dst []byte, vehicleUnits *cardv1.VehicleUnitsUse
 //   - 4 bytes: VuSoftwareVersion (IA5String)
 func appendCardVehicleUnitRecord(dst []byte, record *cardv1.VehicleUnitsUsed_Record) ([]byte, error) {
 	if record == nil {
-		return dst, nil
+		return nil, fmt.Errorf("record cannot be nil")
 	}
 
 	// Append timestamp (TimeReal - 4 bytes)
@@ -235,8 +235,8 @@ func appendCardVehicleUnitRecord(dst []byte, record *cardv1.VehicleUnitsUsed_Rec
 
 	// Append VU software version (4 bytes)
 	vuSoftwareVersion := record.GetVuSoftwareVersion()
-	if len(vuSoftwareVersion) > 4 {
-		return nil, fmt.Errorf("VU software version too long: %d bytes", len(vuSoftwareVersion))
+	if n := len(vuSoftwareVersion); n != 0 && n != 4 {
+		return nil, fmt.Errorf("invalid length of VU software version: got %d, want 4", n)
 	}
 	if len(vuSoftwareVersion) == 4 {
 		dst = append(dst, vuSoftwareVersion...)
diff --git a/internal/dd/range.go b/internal/dd/range.go
index eb433c9..8360f8a 100644
--- a/internal/dd/range.go
+++ b/internal/dd/range.go
@@ -10,3 +10,11 @@ func CheckRange(name string, value, max int32) error {
 	}
 	return nil
 }
+
+// CheckLength reports an error for a field written with another length than its own.
+func CheckLength(name string, got, want int) error {
+	if got != want {
+		return fmt.Errorf("invalid length of %s: got %d, want %d", name, got, want)
+	}
+	return nil
+}
-- 
2.43.0


From 0d5d65f4ffcc78ac4a738526ae769cf3e0c39a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:50 +0000
Subject: [PATCH 59/62] fix: link undecodable activity records to the record
 before them when a store is rebuilt

---
 internal/card/activity.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/card/activity.go b/internal/card/activity.go
index 58d1b1b..a652c6e 100644
--- a/internal/card/activity.go
+++ b/internal/card/activity.go
@@ -510,8 +510,12 @@ func buildCyclicBufferFromRecords(records []*cardv1.DriverActivityData_DailyReco
 
 		// Write the record
 		if !rec.GetValid() {
-			// For invalid records, copy raw_data as-is (it already has the correct header)
+			// For invalid records, copy raw_data, and link it to the record now before it
+			if recordSize < 4 {
+				return nil, fmt.Errorf("invalid record %d has %d bytes, less than a header", i, recordSize)
+			}
 			copy(buffer[currentPos:], rec.GetRawData())
+			binary.BigEndian.PutUint16(buffer[currentPos:], uint16(prevRecordLength))
 		} else {
 			// For valid records, marshal with proper header
 			recordWithHeader, err := marshalRecordWithHeader(rec, prevRecordLength, recordSize)
-- 
2.43.0


From 4216fd46d6cbefef111f4803e0ea1c0eb30a46d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:43 +0000
Subject: [PATCH 60/62] fix: write odometer values above 999999 that a card
 holds in its GNSS places

A card whose GNSS places hold an odometer of all ones (unknown) was read,
but could not be marshalled again. The field holds 24 bits, as in the other
records of a card.
---
 internal/card/gnss_places.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/card/gnss_places.go b/internal/card/gnss_places.go
index a5aa725..30ab1c3 100644
--- a/internal/card/gnss_places.go
+++ b/internal/card/gnss_places.go
@@ -221,7 +221,7 @@ func appendGNSSAccumulatedDrivingRecord(dst []byte, record *cardv1.GnssPlaces_Re
 
 	// Append vehicle odometer (OdometerShort - 3 bytes)
 	odometer := record.GetVehicleOdometerKm()
-	if odometer < 0 || odometer > 999999 {
+	if odometer < 0 || odometer > 0xFFFFFF {
 		return nil, fmt.Errorf("invalid vehicle odometer value: %d", odometer)
 	}
 	dst = dd.AppendOdometer(dst, uint32(odometer))
-- 
2.43.0


From ab4e1d632a84898b6dcbeea2836ab9be38d0d9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:10 +0000
Subject: [PATCH 61/62] fix: reject record arrays beyond the end of a download
 before adding up their size

On 32-bit platforms the size overflowed and parsing panicked.
---
 internal/vu/raw_vehicle_unit_file.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/vu/raw_vehicle_unit_file.go b/internal/vu/raw_vehicle_unit_file.go
index be1ab37..6f92239 100644
--- a/internal/vu/raw_vehicle_unit_file.go
+++ b/internal/vu/raw_vehicle_unit_file.go
@@ -109,6 +109,10 @@ func sizeOfRecordArray(data []byte, offset int) (int, error) {
 	recordSize := binary.BigEndian.Uint16(data[offset+1:])
 	noOfRecords := binary.BigEndian.Uint16(data[offset+3:])
 
+	// The product can exceed the range of int where that has 32 bits
+	if recordsSize := uint32(recordSize) * uint32(noOfRecords); uint64(recordsSize) > uint64(len(data)-offset-headerSize) {
+		return 0, fmt.Errorf("insufficient data for RecordArray records: need %d, have %d", recordsSize, len(data)-offset-headerSize)
+	}
 	totalSize := headerSize + int(recordSize)*int(noOfRecords)
 	return totalSize, nil
 }
-- 
2.43.0


From 10455f240e743202d6f101f0c16e397f24dfcf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:14 +0000
Subject: [PATCH 62/62] fix: reject BCD values that do not fit an int instead
 of wrapping them

On 32-bit platforms ten digits and more were read as another number.
---
 internal/dd/bcd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/dd/bcd.go b/internal/dd/bcd.go
index d5446e1..954cd77 100644
--- a/internal/dd/bcd.go
+++ b/internal/dd/bcd.go
@@ -13,7 +13,7 @@ func decodeBCD(b []byte) (int, error) {
 		return 0, nil
 	}
 	s := hex.EncodeToString(b)
-	i, err := strconv.ParseInt(s, 10, 64)
+	i, err := strconv.ParseInt(s, 10, strconv.IntSize)
 	if err != nil {
 		return 0, fmt.Errorf("invalid BCD value: %s", s)
 	}
-- 
2.43.0

