From 1ca1dbd6acad1c8d38385ccc8eb6386d4d82b25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:15 +0000
Subject: [PATCH 01/32] fix: threat identity altitude loses the C1 and A1 bits

---
 pkg/acas/ra/fields/threat_identity_altitude.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/acas/ra/fields/threat_identity_altitude.go b/pkg/acas/ra/fields/threat_identity_altitude.go
index 3cc0894..c256838 100644
--- a/pkg/acas/ra/fields/threat_identity_altitude.go
+++ b/pkg/acas/ra/fields/threat_identity_altitude.go
@@ -37,7 +37,7 @@ func ReadThreatIdentityAltitude(data []byte) (ThreatIdentityAltitude, error) {
 	// Then C2 A2 C4 A4
 	altitudeCode += uint16(data[3]&0xF0) << 2
 	// Then C1 A1
-	altitudeCode += uint16(data[2]&0x03) << 2
+	altitudeCode += uint16(data[2]&0x03) << 10
 
 	// Detect invalid altitude
 	if altitudeCode == 0 {
-- 
2.43.0


From 95e84ef9d7f75d5048712b74841753cf986ed9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:15 +0000
Subject: [PATCH 02/32] fix: threat identity range drops a bit of the range

---
 pkg/acas/ra/fields/threat_identity_range.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/acas/ra/fields/threat_identity_range.go b/pkg/acas/ra/fields/threat_identity_range.go
index 762e95a..d566ad5 100644
--- a/pkg/acas/ra/fields/threat_identity_range.go
+++ b/pkg/acas/ra/fields/threat_identity_range.go
@@ -39,6 +39,6 @@ func (threatRange ThreatIdentityRange) GetRange() float64 {
 // ReadThreatIdentityRange reads the ThreatIdentityRange
 func ReadThreatIdentityRange(data []byte) ThreatIdentityRange {
 
-	bits := (data[4]&0x1F)<<2 + (data[5]&0xA0)>>6
+	bits := (data[4]&0x1F)<<2 + (data[5]&0xC0)>>6
 	return ThreatIdentityRange(bits)
 }
-- 
2.43.0


From 892b083ad1599d8585e3b8c4dd5a41e291a15e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 03/32] fix: threat identity bearing text overflows above 252
 degrees

---
 pkg/acas/ra/fields/threat_identity_bearing.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/acas/ra/fields/threat_identity_bearing.go b/pkg/acas/ra/fields/threat_identity_bearing.go
index f4f39f3..d476345 100644
--- a/pkg/acas/ra/fields/threat_identity_bearing.go
+++ b/pkg/acas/ra/fields/threat_identity_bearing.go
@@ -14,7 +14,7 @@ func (threatBearing ThreatIdentityBearing) ToString() string {
 	if threatBearing == 0 {
 		return " 0 - No bearing estimate available"
 	} else if 1 <= threatBearing && threatBearing <= 60 {
-		return fmt.Sprintf("%v - between %v and %v", threatBearing, (threatBearing-1)*6, threatBearing*6)
+		return fmt.Sprintf("%v - between %v and %v", byte(threatBearing), (int(threatBearing)-1)*6, int(threatBearing)*6)
 	} else if 61 <= threatBearing && threatBearing <= 63 {
 		return fmt.Sprintf("%v - Not assigned", threatBearing)
 	}
-- 
2.43.0


From 9923edce42105c1a496f61c223d3b3668f814d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 04/32] fix: active RA sense is always displayed as upward

---
 .../fields/active_resolution_advisory_one_or_same_separation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/acas/ra/fields/active_resolution_advisory_one_or_same_separation.go b/pkg/acas/ra/fields/active_resolution_advisory_one_or_same_separation.go
index 5fd7c79..786ff46 100644
--- a/pkg/acas/ra/fields/active_resolution_advisory_one_or_same_separation.go
+++ b/pkg/acas/ra/fields/active_resolution_advisory_one_or_same_separation.go
@@ -119,7 +119,7 @@ const (
 
 // ToString returns a basic, but readable, representation of the field
 func (sense ActiveRASense) ToString() string {
-	switch ActiveRASenseUpward {
+	switch sense {
 	case ActiveRASenseUpward:
 		return "Upward"
 	case ActiveRASenseDownward:
-- 
2.43.0


From d5720c639432cf0a629be74e3657f225f5ef3c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:16 +0000
Subject: [PATCH 05/32] fix: surface operational status ADS-B V2 reports the
 ADS-B level 1

---
 pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go b/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
index 2c4ecd3..ead72a9 100644
--- a/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
+++ b/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
@@ -28,7 +28,7 @@ type AircraftOperationalStatusSurfaceADSB2 struct {
 }
 
 func (message AircraftOperationalStatusSurfaceADSB2) GetADSBLevel() byte {
-	return 1
+	return 2
 }
 
 // GetRegister returns the Register the message
-- 
2.43.0


From f2e2b6fef069acb551fd285d91dac799e1a21bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 06/32] fix: selected altitude type is read from the SIL
 supplement bit

---
 pkg/bds/bds62/fields/selected_altitude_type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds62/fields/selected_altitude_type.go b/pkg/bds/bds62/fields/selected_altitude_type.go
index 7a822bd..d6c5602 100644
--- a/pkg/bds/bds62/fields/selected_altitude_type.go
+++ b/pkg/bds/bds62/fields/selected_altitude_type.go
@@ -29,6 +29,6 @@ func (status SelectedAltitudeType) ToString() string {
 
 // ReadSelectedAltitudeType reads the SelectedAltitudeType from a 56 bits data field
 func ReadSelectedAltitudeType(data []byte) SelectedAltitudeType {
-	bits := data[0] & 0x01
+	bits := (data[1] & 0x80) >> 7
 	return SelectedAltitudeType(bits)
 }
-- 
2.43.0


From 7751085e4ddf1dd5688f12fb7d3ba803a16f2418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 07/32] fix: target heading is read from bits of the target
 altitude

---
 pkg/bds/bds62/fields/target_heading_track_angle.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds62/fields/target_heading_track_angle.go b/pkg/bds/bds62/fields/target_heading_track_angle.go
index 1f5d2b5..fa02562 100644
--- a/pkg/bds/bds62/fields/target_heading_track_angle.go
+++ b/pkg/bds/bds62/fields/target_heading_track_angle.go
@@ -40,7 +40,7 @@ func ReadTargetHeadingTrackIndicator(data []byte) TargetHeadingTrackIndicator {
 // Specified in Doc 9871 / B.2.3.9.9
 func ReadTargetHeadingTrackAngle(data []byte) (uint16, NumericValueStatus) {
 	byte1 := data[3] & 0x1F
-	byte2 := data[2] & 0xF0
+	byte2 := data[4] & 0xF0
 	targetHeading := bitutils.Pack2Bytes(byte1, byte2) >> 4
 
 	if targetHeading > 359 {
-- 
2.43.0


From 2c7a5b9ac6729da9beadac12b5b48e41d2f7c144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:17 +0000
Subject: [PATCH 08/32] fix: negative selected heading is not sign and
 magnitude coded

---
 pkg/bds/bds62/fields/selected_heading.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds62/fields/selected_heading.go b/pkg/bds/bds62/fields/selected_heading.go
index bfc65ba..f1b263e 100644
--- a/pkg/bds/bds62/fields/selected_heading.go
+++ b/pkg/bds/bds62/fields/selected_heading.go
@@ -40,7 +40,7 @@ func ReadSelectedHeading(data []byte) (float32, SelectedHeadingStatus) {
 	heading := float32(bitutils.Pack2Bytes(byte1, byte2) >> 1)
 
 	if negative {
-		heading = -heading
+		heading = heading - 256
 	}
 
 	return heading * 180 / 256, status
-- 
2.43.0


From 268bf49655215fcf321a64ae22188d087deeb652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:18 +0000
Subject: [PATCH 09/32] fix: aircraft status without information accepts data
 in reserved bits

---
 pkg/bds/bds61/aircraft_status_no_information.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds61/aircraft_status_no_information.go b/pkg/bds/bds61/aircraft_status_no_information.go
index 2156941..d969495 100644
--- a/pkg/bds/bds61/aircraft_status_no_information.go
+++ b/pkg/bds/bds61/aircraft_status_no_information.go
@@ -67,7 +67,7 @@ func ReadAircraftStatusNoInformation(data []byte) (*AircraftStatusNoInformation,
 	}
 
 	for i := uint(2); i < 7; i++ {
-		if (data[1] & 0x1F) != 0 {
+		if data[i] != 0 {
 			return nil, errors.New("the bits 17 to 56 are expected to be 0")
 		}
 	}
-- 
2.43.0


From c75c551f7c5f48d4a1193bcb27d945a07b003338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 10/32] fix: surveillance identifier code capability is read
 from the wrong bit

---
 pkg/bds/bds10/fields/surveillance_identifier_code.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds10/fields/surveillance_identifier_code.go b/pkg/bds/bds10/fields/surveillance_identifier_code.go
index 07634b5..b49d268 100644
--- a/pkg/bds/bds10/fields/surveillance_identifier_code.go
+++ b/pkg/bds/bds10/fields/surveillance_identifier_code.go
@@ -29,6 +29,6 @@ func (sic SurveillanceIdentifierCode) ToString() string {
 
 // ReadSurveillanceIdentifierCode reads the SurveillanceIdentifierCode from a 56 bits data field
 func ReadSurveillanceIdentifierCode(data []byte) SurveillanceIdentifierCode {
-	bits := (data[2] & 0x40) >> 5
+	bits := (data[4] & 0x20) >> 5
 	return SurveillanceIdentifierCode(bits)
 }
-- 
2.43.0


From 3cf87dde2d9dee91295c23ff8ba6a80e77060ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 11/32] fix: MCP/FCU and FMS selected altitudes are swapped

---
 pkg/bds/bds40/fields/fms_selected_altitude.go | 9 +++++----
 pkg/bds/bds40/fields/mcp_selected_altitude.go | 9 ++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/pkg/bds/bds40/fields/fms_selected_altitude.go b/pkg/bds/bds40/fields/fms_selected_altitude.go
index 4c1ac8f..a4eeab4 100644
--- a/pkg/bds/bds40/fields/fms_selected_altitude.go
+++ b/pkg/bds/bds40/fields/fms_selected_altitude.go
@@ -5,10 +5,11 @@ import "github.com/twuillemin/modes/pkg/bitutils"
 func ReadFMSSelectedAltitude(data []byte) (bool, uint32) {
 	status := (data[1] & 0x04) != 0
 
-	byte1 := data[0] & 0x7F
-	byte2 := data[1] & 0xF8
-	allBits := bitutils.Pack2Bytes(byte1, byte2) >> 3
-	fmsAltitude := uint32(allBits) * 16
+	byte1 := data[1] & 0x03
+	byte2 := data[2]
+	byte3 := data[3] & 0xC0
+	allBits := bitutils.Pack3Bytes(byte1, byte2, byte3) >> 6
+	fmsAltitude := allBits * 16
 
 	return status, fmsAltitude
 }
diff --git a/pkg/bds/bds40/fields/mcp_selected_altitude.go b/pkg/bds/bds40/fields/mcp_selected_altitude.go
index 83f3c4c..39c7c79 100644
--- a/pkg/bds/bds40/fields/mcp_selected_altitude.go
+++ b/pkg/bds/bds40/fields/mcp_selected_altitude.go
@@ -5,11 +5,10 @@ import "github.com/twuillemin/modes/pkg/bitutils"
 func ReadMCPSelectedAltitude(data []byte) (bool, uint32) {
 	status := (data[0] & 0x80) != 0
 
-	byte1 := data[1] & 0x03
-	byte2 := data[2]
-	byte3 := data[3] & 0xC0
-	allBits := bitutils.Pack3Bytes(byte1, byte2, byte3) >> 6
-	altitude := allBits * 16
+	byte1 := data[0] & 0x7F
+	byte2 := data[1] & 0xF8
+	allBits := bitutils.Pack2Bytes(byte1, byte2) >> 3
+	altitude := uint32(allBits) * 16
 
 	return status, altitude
 }
-- 
2.43.0


From 36814db72e173bd9b4d10b9bff4c2fd0537e6399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 12/32] fix: barometric pressure setting status is the MCP/FCU
 altitude status

---
 pkg/bds/bds40/fields/barometric_pressure.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/bds/bds40/fields/barometric_pressure.go b/pkg/bds/bds40/fields/barometric_pressure.go
index 971d522..edabafe 100644
--- a/pkg/bds/bds40/fields/barometric_pressure.go
+++ b/pkg/bds/bds40/fields/barometric_pressure.go
@@ -3,11 +3,17 @@ package fields
 import "github.com/twuillemin/modes/pkg/bitutils"
 
 func ReadBarometricPressure(data []byte) (bool, float32) {
-	status := (data[0] & 0x80) != 0
+	status := (data[3] & 0x20) != 0
 
 	byte1 := data[3] & 0x1F
 	byte2 := data[4] & 0xFE
 	allBits := bitutils.Pack2Bytes(byte1, byte2) >> 1
+
+	// No setting given: the value is not offset, so that it can be recognized as being absent
+	if !status && allBits == 0 {
+		return false, 0
+	}
+
 	pressure := (float32(allBits) * 0.1) + 800
 
 	return status, pressure
-- 
2.43.0


From 19ea86775fae4968c424add18ab9c3324956f322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 13/32] fix: wind speed loses its most significant bit

---
 pkg/bds/bds44/fields/wind_speed.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds44/fields/wind_speed.go b/pkg/bds/bds44/fields/wind_speed.go
index d296fa0..3e3b4ef 100644
--- a/pkg/bds/bds44/fields/wind_speed.go
+++ b/pkg/bds/bds44/fields/wind_speed.go
@@ -5,7 +5,7 @@ import "github.com/twuillemin/modes/pkg/bitutils"
 func ReadWindSpeed(data []byte) (bool, uint32) {
 	status := (data[0] & 0x08) != 0
 
-	byte1 := data[0] & 0x03
+	byte1 := data[0] & 0x07
 	byte2 := data[1] & 0xFC
 	allBits := bitutils.Pack2Bytes(byte1, byte2) >> 2
 	speed := uint32(allBits)
-- 
2.43.0


From e96ea55e2fbd0f450a4dc6b27c930bdfdfa0ecb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:02 +0000
Subject: [PATCH 14/32] fix: sign of the static air temperature V0 is read from
 a data bit

---
 pkg/bds/bds44/fields/static_air_temperature.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/bds/bds44/fields/static_air_temperature.go b/pkg/bds/bds44/fields/static_air_temperature.go
index 7a6f5e8..d856061 100644
--- a/pkg/bds/bds44/fields/static_air_temperature.go
+++ b/pkg/bds/bds44/fields/static_air_temperature.go
@@ -10,8 +10,8 @@ func ReadStaticAirTemperatureV0(data []byte) float32 {
 	allBits := bitutils.Pack2Bytes(byte1, byte2) >> 6
 	temperature := float32(allBits) * 0.25
 
-	if (data[3] & 0x01) != 0 {
-		temperature = temperature - 128
+	if (data[2] & 0x01) != 0 {
+		temperature = temperature - 256
 	}
 
 	return temperature
-- 
2.43.0


From 9d64528d94a7be059eadeedbbc07b4940eaffbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:02 +0000
Subject: [PATCH 15/32] fix: extended squitter status accepts data in reserved
 bits

---
 pkg/bds/bds07/status.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds07/status.go b/pkg/bds/bds07/status.go
index fbb4980..b1f4a8c 100644
--- a/pkg/bds/bds07/status.go
+++ b/pkg/bds/bds07/status.go
@@ -49,7 +49,7 @@ func ReadStatus(data []byte) (*Status, error) {
 	}
 
 	// Bits 4 to 8 are reserved and must be 0
-	if data[0]&0x1C != 0 {
+	if data[0]&0x1F != 0 {
 		return nil, errors.New("the bits 4 to 8 are reserved and must be 0")
 	}
 
-- 
2.43.0


From 3b4aef1450f738016253c3d4797e80aef30e9ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:02 +0000
Subject: [PATCH 16/32] fix: transmission rate capability text is the one of
 the altitude type

---
 pkg/bds/bds07/fields/transmission_rate_subfield.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bds/bds07/fields/transmission_rate_subfield.go b/pkg/bds/bds07/fields/transmission_rate_subfield.go
index cbe7abf..63f32f6 100644
--- a/pkg/bds/bds07/fields/transmission_rate_subfield.go
+++ b/pkg/bds/bds07/fields/transmission_rate_subfield.go
@@ -21,7 +21,7 @@ func (trs TransmissionRateSubfield) ToString() string {
 
 	switch trs {
 	case TransmissionRateNoCapability:
-		return "0 - Barometric altitude"
+		return "0 - No capability to determine surface squitter rate"
 	case TransmissionRateHigh:
 		return "1 - High surface squitter rate selected"
 	case TransmissionRateLow:
-- 
2.43.0


From 13220f98a5f1787001002ba58bceb6de295672d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:20 +0000
Subject: [PATCH 17/32] fix: texts of several codes are prefixed by the number
 of another code

---
 pkg/bds/bds09/fields/navigation_uncertainty_category.go | 8 ++++----
 pkg/bds/bds10/fields/modes_subnetwork_version.go        | 8 ++++----
 pkg/bds/bds62/fields/source_integrity_level.go          | 4 ++--
 pkg/bds/bds65/fields/geometric_vertical_accuracy.go     | 6 +++---
 4 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/pkg/bds/bds09/fields/navigation_uncertainty_category.go b/pkg/bds/bds09/fields/navigation_uncertainty_category.go
index 1cd8817..368af79 100644
--- a/pkg/bds/bds09/fields/navigation_uncertainty_category.go
+++ b/pkg/bds/bds09/fields/navigation_uncertainty_category.go
@@ -34,15 +34,15 @@ func (category NavigationUncertaintyCategory) ToString() string {
 			nucpHorizontalLabel, "< 10 m/s",
 			nucpVerticalLabel, "< 15.2 m/s (50 fps)")
 	case NUCPHorizontalLowerThan3VerticalLowerThan4Point6:
-		return fmt.Sprintf("1 - %v %v / %v %v",
+		return fmt.Sprintf("2 - %v %v / %v %v",
 			nucpHorizontalLabel, "< 3 m/s",
 			nucpVerticalLabel, "< 4.6 m/s (15 fps)")
 	case NUCPHorizontalLowerThan1VerticalLowerThan1Point5:
-		return fmt.Sprintf("1 - %v %v / %v %v",
-			nucpHorizontalLabel, "< 2 m/s",
+		return fmt.Sprintf("3 - %v %v / %v %v",
+			nucpHorizontalLabel, "< 1 m/s",
 			nucpVerticalLabel, "< 1.5 m/s (5 fps)")
 	case NUCPHorizontalLowerThan0Point3VerticalLowerThan0Point46:
-		return fmt.Sprintf("1 - %v %v / %v %v",
+		return fmt.Sprintf("4 - %v %v / %v %v",
 			nucpHorizontalLabel, "< 0.3 m/s",
 			nucpVerticalLabel, "< 0.46 m/s (1.5 fps)")
 
diff --git a/pkg/bds/bds10/fields/modes_subnetwork_version.go b/pkg/bds/bds10/fields/modes_subnetwork_version.go
index 098d7a9..33e0250 100644
--- a/pkg/bds/bds10/fields/modes_subnetwork_version.go
+++ b/pkg/bds/bds10/fields/modes_subnetwork_version.go
@@ -31,13 +31,13 @@ func (mssv ModeSSubnetworkVersion) ToString() string {
 	case ModeSSubnetworkVersion1:
 		return "1 - Mode S subnetwork Version 1 - ICAO Doc 9688 (1996)"
 	case ModeSSubnetworkVersion2:
-		return "1 - Mode S subnetwork Version 2 - ICAO Doc 9688 (1997)"
+		return "2 - Mode S subnetwork Version 2 - ICAO Doc 9688 (1997)"
 	case ModeSSubnetworkVersion3:
-		return "1 - Mode S subnetwork Version 3 - ICAO Annex 10, Vol III, Amdt 77"
+		return "3 - Mode S subnetwork Version 3 - ICAO Annex 10, Vol III, Amdt 77"
 	case ModeSSubnetworkVersion4:
-		return "1 - Mode S subnetwork Version 4 - ICAO Doc 9871, Edition 1"
+		return "4 - Mode S subnetwork Version 4 - ICAO Doc 9871, Edition 1"
 	case ModeSSubnetworkVersion5:
-		return "1 - Mode S subnetwork Version 5 - ICAO Doc 9871, Edition 2"
+		return "5 - Mode S subnetwork Version 5 - ICAO Doc 9871, Edition 2"
 	default:
 		return fmt.Sprintf("%v - Unknown code", mssv)
 	}
diff --git a/pkg/bds/bds62/fields/source_integrity_level.go b/pkg/bds/bds62/fields/source_integrity_level.go
index 2d4488c..8064c0b 100644
--- a/pkg/bds/bds62/fields/source_integrity_level.go
+++ b/pkg/bds/bds62/fields/source_integrity_level.go
@@ -27,9 +27,9 @@ func (level SourceIntegrityLevel) ToString() string {
 	case SILLevel1:
 		return "1 - SIL <= 1 * 10^-3 per flight hour or per sample"
 	case SILLevel2:
-		return "1 - SIL <= 1 * 10^-5 per flight hour or per sample"
+		return "2 - SIL <= 1 * 10^-5 per flight hour or per sample"
 	case SILLevel3:
-		return "1 - SIL <= 1 * 10^-7 per flight hour or per sample"
+		return "3 - SIL <= 1 * 10^-7 per flight hour or per sample"
 	default:
 		return fmt.Sprintf("%v - Unknown code", level)
 	}
diff --git a/pkg/bds/bds65/fields/geometric_vertical_accuracy.go b/pkg/bds/bds65/fields/geometric_vertical_accuracy.go
index 1ec808a..ea6353a 100644
--- a/pkg/bds/bds65/fields/geometric_vertical_accuracy.go
+++ b/pkg/bds/bds65/fields/geometric_vertical_accuracy.go
@@ -25,11 +25,11 @@ func (baro GeometricVerticalAccuracy) ToString() string {
 	case GVAUnknownOrGreaterThan150m:
 		return "0 - Unknown or GVA >= 150 meters"
 	case GVALowerThan150m:
-		return "0 - GVA <= 150 meters"
+		return "1 - GVA <= 150 meters"
 	case GVALowerThan45m:
-		return "0 - GVA <= 45 meters"
+		return "2 - GVA <= 45 meters"
 	case GVAReserved3:
-		return "0 - reserved"
+		return "3 - reserved"
 	default:
 		return fmt.Sprintf("%v - Unknown code", baro)
 	}
-- 
2.43.0


From 9bb417fd7def61d017b8cc1166f4050cf6db7ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 18/32] fix: surface position V1 with NIC 8 gives an unbounded
 containment radius

---
 pkg/adsb/surface_position/surface_position_v1.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/adsb/surface_position/surface_position_v1.go b/pkg/adsb/surface_position/surface_position_v1.go
index 9b2ab32..8ca1003 100644
--- a/pkg/adsb/surface_position/surface_position_v1.go
+++ b/pkg/adsb/surface_position/surface_position_v1.go
@@ -65,7 +65,7 @@ func getHCRAndNICForV1(formatTypeCode byte, nicSupplementA bool) (fields.Horizon
 		if nicSupplementA {
 			return fields.HCRV1RcLowerThan75M, 9
 		} else {
-			return fields.HCRV1RcGreaterThan0Point1NM, 8
+			return fields.HCRV1RcLowerThan0Point1NM, 8
 		}
 	default:
 		return fields.HCRV1RcGreaterThan0Point1NM, 0
-- 
2.43.0


From 898adb93f22265de90e51c60661f4cebf0ef7a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 19/32] fix: ground distance is not a number for most of the
 antipodal points

---
 pkg/geo/ground_distance.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/geo/ground_distance.go b/pkg/geo/ground_distance.go
index a7ee98d..4471bae 100644
--- a/pkg/geo/ground_distance.go
+++ b/pkg/geo/ground_distance.go
@@ -24,6 +24,9 @@ func ComputeGroundDistance(lat1, long1, lat2, long2 float64) float64 {
 
 	a := math.Pow(math.Sin(deltaPhi/2.0), 2) + math.Cos(phi1)*math.Cos(phi2)*math.Pow(math.Sin(deltaLambda/2.0), 2)
 
+	// For antipodal points, the rounding errors may lead to a value slightly above 1
+	a = math.Min(a, 1)
+
 	c := 2 * math.Atan2(math.Sqrt(a), math.Sqrt(1-a))
 
 	metricDistance := earthRadius * c
-- 
2.43.0


From 1ba5a56d503fe06d39dd1bc28b075b324d30941b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:50 +0000
Subject: [PATCH 20/32] fix: airborne global position returns latitudes out of
 range

---
 pkg/geo/cpr_airborne_global_position.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/geo/cpr_airborne_global_position.go b/pkg/geo/cpr_airborne_global_position.go
index 7da5cbb..969e96e 100644
--- a/pkg/geo/cpr_airborne_global_position.go
+++ b/pkg/geo/cpr_airborne_global_position.go
@@ -69,6 +69,11 @@ func GetCPRAirborneGlobalPosition(
 		latitude = latitudeOdd
 	}
 
+	// If the two messages were not emitted from neighbour positions, the computed latitude may not exist
+	if latitude < -90 || latitude > 90 {
+		return 0, 0, errors.New("the latitude is out of range")
+	}
+
 	// m is the longitude index
 	m := math.Floor(cprLongitudeEven*(numberLongitude-1) - cprLongitudeOdd*numberLongitude + 0.5)
 
-- 
2.43.0


From 92d9f11c649f05fa2ea810112852d8213dd454a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 21/32] fix: surface global position ignores the antimeridian
 when choosing the nearest longitude

---
 pkg/geo/cpr_surface_global_position.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/geo/cpr_surface_global_position.go b/pkg/geo/cpr_surface_global_position.go
index 771c0b0..e44b34f 100644
--- a/pkg/geo/cpr_surface_global_position.go
+++ b/pkg/geo/cpr_surface_global_position.go
@@ -108,7 +108,7 @@ func GetCPRSurfaceGlobalPosition(
 
 	distancesToRef := [4]float64{}
 	for i, longitudeCorrected := range longitudesCorrected {
-		distancesToRef[i] = math.Abs(referenceLongitude - longitudeCorrected)
+		distancesToRef[i] = math.Abs(mod(referenceLongitude-longitudeCorrected+180, 360) - 180)
 	}
 
 	smallestDistance := 10000000.0
-- 
2.43.0


From b37b9a19a0e0d6a7827be51933602ea29e9bc5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 22/32] fix: surface global position chooses the wrong
 hemisphere around the equator

---
 pkg/geo/cpr_surface_global_position.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/geo/cpr_surface_global_position.go b/pkg/geo/cpr_surface_global_position.go
index e44b34f..7a8a46e 100644
--- a/pkg/geo/cpr_surface_global_position.go
+++ b/pkg/geo/cpr_surface_global_position.go
@@ -43,14 +43,14 @@ func GetCPRSurfaceGlobalPosition(
 	latitudeEven := 90 / (4 * Nz) * (mod(latitudeIndex, 4*Nz) + cprLatitudeEven)
 	latitudeOdd := 90 / (4*Nz - 1) * (mod(latitudeIndex, 4*Nz-1) + cprLatitudeOdd)
 
-	// If the reference in the southern hemisphere latitude solution
+	// Use the southern hemisphere latitude solution if it is the nearest from the reference
 	latitudeEvenFixed := latitudeEven
-	if referenceLatitude < 0 {
+	if math.Abs(referenceLatitude-(latitudeEven-90)) < math.Abs(referenceLatitude-latitudeEven) {
 		latitudeEvenFixed = latitudeEvenFixed - 90
 	}
 
 	latitudeOddFixed := latitudeOdd
-	if referenceLatitude < 0 {
+	if math.Abs(referenceLatitude-(latitudeOdd-90)) < math.Abs(referenceLatitude-latitudeOdd) {
 		latitudeOddFixed = latitudeOddFixed - 90
 	}
 
-- 
2.43.0


From f0c4892212e8ed6d48779d7a06a84203f6fd9c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:51 +0000
Subject: [PATCH 23/32] fix: the message is not read when a reader level is
 given on the command line

---
 cmd/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/main.go b/cmd/main.go
index 07d2212..eddeb24 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -44,8 +44,8 @@ func main() {
 		return
 	}
 
-	if len(os.Args) > 1 {
-		processSingleLine(os.Args[1], adsbReaderLevel)
+	if flag.NArg() > 0 {
+		processSingleLine(flag.Arg(0), adsbReaderLevel)
 	} else {
 		fmt.Printf("No data provided")
 	}
-- 
2.43.0


From 3c06fc9cc476d5cbd1d1e2f8b01a2dd4deebffc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 24/32] fix: text of the continuation flag is the one of the
 overlay command capability

---
 pkg/bds/bds10/data_link_capability_report.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/bds/bds10/data_link_capability_report.go b/pkg/bds/bds10/data_link_capability_report.go
index 7026d09..22f106f 100644
--- a/pkg/bds/bds10/data_link_capability_report.go
+++ b/pkg/bds/bds10/data_link_capability_report.go
@@ -74,6 +74,7 @@ func (message DataLinkCapabilityReport) ToString() string {
 	return fmt.Sprintf(""+
 		"Message:                                 %v\n"+
 		"Continuation Flag:                       %v\n"+
+		"Overlay Command Capability:              %v\n"+
 		"ACAS Status                              %v\n"+
 		"ModeS Subnetwork Version                 %v\n"+
 		"Transponder Enhanced Protocol Indicator  %v\n"+
@@ -89,6 +90,7 @@ func (message DataLinkCapabilityReport) ToString() string {
 		"ACAS Applicable Document                 %v\n"+
 		"DTE SubAddress Statuses                  %v\n",
 		message.GetRegister().ToString(),
+		message.ContinuationFlag.ToString(),
 		message.OverlayCommandCapability.ToString(),
 		message.ACASStatus.ToString(),
 		message.ModeSSubnetworkVersion.ToString(),
-- 
2.43.0


From 2e5a40da2c72585b16807354f36a362a898e01f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 25/32] fix: text of the track angle of the surface status is
 named NIC Baro

---
 pkg/bds/bds65/aircraft_operational_status_surface_adsb1.go | 2 +-
 pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/bds/bds65/aircraft_operational_status_surface_adsb1.go b/pkg/bds/bds65/aircraft_operational_status_surface_adsb1.go
index 0eb8ff0..cd09843 100644
--- a/pkg/bds/bds65/aircraft_operational_status_surface_adsb1.go
+++ b/pkg/bds/bds65/aircraft_operational_status_surface_adsb1.go
@@ -52,7 +52,7 @@ func (message AircraftOperationalStatusSurfaceADSB1) ToString() string {
 		"NIC Supplement:                          %v\n"+
 		"Navigational Accuracy Category Position: %v\n"+
 		"Surveillance Integrity ReaderLevel:      \n%v\n"+
-		"NIC Baro:                                %v\n"+
+		"Track Angle / Heading:                   %v\n"+
 		"Horizontal Reference Direction:          %v",
 		message.GetRegister().ToString(),
 		message.Subtype.ToString(),
diff --git a/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go b/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
index ead72a9..61d4772 100644
--- a/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
+++ b/pkg/bds/bds65/aircraft_operational_status_surface_adsb2.go
@@ -54,7 +54,7 @@ func (message AircraftOperationalStatusSurfaceADSB2) ToString() string {
 		"Navigational Accuracy Category Position: %v\n"+
 		"Source Integrity ReaderLevel:            %v\n"+
 		"Source Integrity ReaderLevel Supplement: %v\n"+
-		"NIC Baro:                                %v\n"+
+		"Track Angle / Heading:                   %v\n"+
 		"Horizontal Reference Direction:          %v",
 		message.GetRegister().ToString(),
 		message.Subtype.ToString(),
-- 
2.43.0


From 4587e17e46768c26e1fa934740601155dbd0faf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 26/32] fix: type 0 position loses its surveillance status and
 says that its altitude is GNSS

---
 pkg/adsb/airborne_position/airborne_position_type_0.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/adsb/airborne_position/airborne_position_type_0.go b/pkg/adsb/airborne_position/airborne_position_type_0.go
index 33a0c0e..4fb991f 100644
--- a/pkg/adsb/airborne_position/airborne_position_type_0.go
+++ b/pkg/adsb/airborne_position/airborne_position_type_0.go
@@ -36,8 +36,9 @@ func (message AirbornePositionType0) ToString() string {
 // ReadAirbornePositionType0 reads a message at the format AirbornePositionType0
 func ReadAirbornePositionType0(adsbVersion adsb.ADSBVersion, data []byte) (*AirbornePositionType0, error) {
 
-	// Update the first byte to have a standard BDS code 0,5 (Airborne position with baro altitude) - format 22
-	dataTmp := []byte{0xB0, data[1], data[2], data[3], data[4], data[5], data[6]}
+	// Update the first byte to have a standard BDS code 0,5 (Airborne position with baro altitude) - format 18. The
+	// Surveillance Status and the Single Antenna Flag are kept.
+	dataTmp := []byte{0x90 | data[0]&0x07, data[1], data[2], data[3], data[4], data[5], data[6]}
 
 	bds, err := bds05.ReadAirbornePosition(dataTmp)
 	if err != nil {
-- 
2.43.0


From b0cb125d7c164078b664b009c7c99d702329040c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:21 +0000
Subject: [PATCH 27/32] fix: end the message of a line that is not hexadecimal
 with a new line

---
 cmd/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/main.go b/cmd/main.go
index eddeb24..c394b66 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -89,7 +89,7 @@ func processSingleLine(str string, readerLevel adsb.ADSBVersion) {
 
 	binaryData, err := hex.DecodeString(str)
 	if err != nil {
-		fmt.Printf("unable to convert the given text to hexadecimal values due to: %v", err)
+		fmt.Printf("unable to convert the given text to hexadecimal values due to: %v\n", err)
 		return
 	}
 
-- 
2.43.0


From e6e2f7bd198862c7bc53e9692a9ec64b32b41425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:22 +0000
Subject: [PATCH 28/32] fix: read the files that have a very long line

---
 cmd/main.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmd/main.go b/cmd/main.go
index c394b66..16ae5b9 100644
--- a/cmd/main.go
+++ b/cmd/main.go
@@ -6,6 +6,7 @@ import (
 	"flag"
 	"fmt"
 	"log"
+	"math"
 	"os"
 
 	resolutionAdvisory "github.com/twuillemin/modes/pkg/acas/ra"
@@ -67,7 +68,9 @@ func readFile(fileName string) []string {
 
 	result := make([]string, 0, 1000)
 
+	// Do not stop on the lines longer than the default limit: they are not valid, but the others may be
 	scanner := bufio.NewScanner(file)
+	scanner.Buffer(make([]byte, 0, bufio.MaxScanTokenSize), math.MaxInt32)
 	for scanner.Scan() {
 		result = append(result, scanner.Text())
 	}
-- 
2.43.0


From 0ff15c50ce5946b4135c0982cd32af651cdc304a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:27 +0000
Subject: [PATCH 29/32] fix: ReadAirbornePosition stops on empty data and
 refuses type 0 with a surveillance status

---
 pkg/adsb/airborne_position/airborne_position.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/adsb/airborne_position/airborne_position.go b/pkg/adsb/airborne_position/airborne_position.go
index 70ddabf..3791380 100644
--- a/pkg/adsb/airborne_position/airborne_position.go
+++ b/pkg/adsb/airborne_position/airborne_position.go
@@ -1,6 +1,7 @@
 package airborne_position
 
 import (
+	"errors"
 	"fmt"
 	"github.com/twuillemin/modes/pkg/adsb"
 )
@@ -8,7 +9,12 @@ import (
 // ReadAirbornePosition reads a message at the format AirbornePosition
 func ReadAirbornePosition(adsbVersion adsb.ADSBVersion, data []byte, nicSupplementA bool) (adsb.Message, error) {
 
-	if data[0] == 0 {
+	if len(data) != 7 {
+		return nil, errors.New("the data for Airborne Position message must be 7 bytes long")
+	}
+
+	// The first byte also holds the Surveillance Status and the Single Antenna Flag
+	if (data[0]&0xF8)>>3 == 0 {
 		return ReadAirbornePositionType0(adsbVersion, data)
 	}
 
-- 
2.43.0


From b29f5bf8c1e5255dae8be2812a964ae56f5b6013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:27 +0000
Subject: [PATCH 30/32] fix: the readers of type 0 stop on short data and read
 the data of any type

---
 .../airborne_position/airborne_position_type_0.go     | 11 +++++++++++
 .../no_position_information.go                        | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/pkg/adsb/airborne_position/airborne_position_type_0.go b/pkg/adsb/airborne_position/airborne_position_type_0.go
index 4fb991f..5b95a42 100644
--- a/pkg/adsb/airborne_position/airborne_position_type_0.go
+++ b/pkg/adsb/airborne_position/airborne_position_type_0.go
@@ -1,6 +1,7 @@
 package airborne_position
 
 import (
+	"errors"
 	"fmt"
 	"github.com/twuillemin/modes/pkg/adsb"
 
@@ -36,6 +37,16 @@ func (message AirbornePositionType0) ToString() string {
 // ReadAirbornePositionType0 reads a message at the format AirbornePositionType0
 func ReadAirbornePositionType0(adsbVersion adsb.ADSBVersion, data []byte) (*AirbornePositionType0, error) {
 
+	if len(data) != 7 {
+		return nil, errors.New("the data for Airborne Position message must be 7 bytes long")
+	}
+
+	formatTypeCode := (data[0] & 0xF8) >> 3
+
+	if formatTypeCode != 0 {
+		return nil, fmt.Errorf("the field FormatTypeCode must be 0: %v", formatTypeCode)
+	}
+
 	// Update the first byte to have a standard BDS code 0,5 (Airborne position with baro altitude) - format 18. The
 	// Surveillance Status and the Single Antenna Flag are kept.
 	dataTmp := []byte{0x90 | data[0]&0x07, data[1], data[2], data[3], data[4], data[5], data[6]}
diff --git a/pkg/adsb/no_position_information/no_position_information.go b/pkg/adsb/no_position_information/no_position_information.go
index 0e04f6f..d847774 100644
--- a/pkg/adsb/no_position_information/no_position_information.go
+++ b/pkg/adsb/no_position_information/no_position_information.go
@@ -1,6 +1,7 @@
 package no_position_information
 
 import (
+	"errors"
 	"fmt"
 	"github.com/twuillemin/modes/pkg/adsb"
 	"github.com/twuillemin/modes/pkg/bds/bds05"
@@ -37,6 +38,16 @@ func (message NoPositionInformation) ToString() string {
 // ReadNoPositionInformation reads a message at the format NoPositionInformation
 func ReadNoPositionInformation(adsbVersion adsb.ADSBVersion, data []byte) (*NoPositionInformation, error) {
 
+	if len(data) != 7 {
+		return nil, errors.New("the data for No Position Information message must be 7 bytes long")
+	}
+
+	formatTypeCode := (data[0] & 0xF8) >> 3
+
+	if formatTypeCode != 0 {
+		return nil, fmt.Errorf("the field FormatTypeCode must be 0: %v", formatTypeCode)
+	}
+
 	// Update the first byte to have a standard BDS code 0,5 (Airborne position with baro altitude) - format 15
 	dataTmp := []byte{0x78, data[1], data[2], 0, 0, 0, 0}
 
-- 
2.43.0


From fab57db0dc3985d0b394c73b2cf71cf35c8facc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:47 +0000
Subject: [PATCH 31/32] fix: the surface global decoding stops the program when
 the reference is not a number

---
 pkg/geo/cpr_surface_global_position.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/geo/cpr_surface_global_position.go b/pkg/geo/cpr_surface_global_position.go
index 7a8a46e..56001b6 100644
--- a/pkg/geo/cpr_surface_global_position.go
+++ b/pkg/geo/cpr_surface_global_position.go
@@ -120,6 +120,11 @@ func GetCPRSurfaceGlobalPosition(
 		}
 	}
 
+	// No distance can be compared if the reference is not a number
+	if minIndex < 0 {
+		return 0, 0, errors.New("the reference is not a position")
+	}
+
 	longitude := longitudesCorrected[minIndex]
 
 	return latitude, longitude, nil
-- 
2.43.0


From c3fdc8cf4d5eaafa50c319cd20beec1d408f9d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:50 +0000
Subject: [PATCH 32/32] fix: CheckCRC stops the program on data shorter than
 the message

---
 pkg/modes/reader/crc.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/modes/reader/crc.go b/pkg/modes/reader/crc.go
index e9a7ed3..2c7c935 100644
--- a/pkg/modes/reader/crc.go
+++ b/pkg/modes/reader/crc.go
@@ -30,6 +30,16 @@ func CheckCRC(
 	allowedAddresses map[common.ICAOAddress]bool,
 	allowedInterrogatorIdentifiers map[common.ICAOAddress]bool) (common.ICAOAddress, error) {
 
+	// The extended squitters are always long messages
+	minimumLength := 7
+	if message.GetDownLinkFormat() == 17 || message.GetDownLinkFormat() == 18 {
+		minimumLength = 14
+	}
+
+	if len(data) < minimumLength {
+		return 0, fmt.Errorf("the data must be at least %v bytes long (%v given)", minimumLength, len(data))
+	}
+
 	switch message.GetDownLinkFormat() {
 	case 11:
 		return checkCRCDF11(data, allowedInterrogatorIdentifiers)
-- 
2.43.0

