From 0b2204e8ea8d8f31289565f0c715191b76efcfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:30 +0000
Subject: [PATCH 01/12] fix: TimTm2Flags::time_base panicked on every non-zero
 time base

The masked bits 3..4 were compared with unshifted values, so any event with a
GNSS or UTC time base hit unreachable!(). Shift first and map the reserved
value 3 to its own variant.
---
 ublox/src/ubx_packets/packets.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index e203d33..86f8bc0 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -2887,11 +2887,11 @@ impl TimTm2Flags {
     }
 
     pub fn time_base(&self) -> TimTm2TimeBase {
-        match self.0 & 0b11000 {
+        match (self.0 >> 3) & 0b11 {
             0 => TimTm2TimeBase::Receiver,
             1 => TimTm2TimeBase::Gnss,
             2 => TimTm2TimeBase::Utc,
-            _ => unreachable!(),
+            _ => TimTm2TimeBase::Reserved,
         }
     }
 
@@ -2919,6 +2919,7 @@ pub enum TimTm2TimeBase {
     Receiver,
     Gnss,
     Utc,
+    Reserved,
 }
 
 #[ubx_packet_recv]
-- 
2.43.0


From ddc4cc05dd09a8cc15649db5f5afa6e5d97b28cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:30 +0000
Subject: [PATCH 02/12] fix: Position from NAV-HPPOSLLH added millimetres to
 metres

---
 ublox/src/ubx_packets/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ublox/src/ubx_packets/types.rs b/ublox/src/ubx_packets/types.rs
index 4b93b7d..42ff034 100644
--- a/ublox/src/ubx_packets/types.rs
+++ b/ublox/src/ubx_packets/types.rs
@@ -56,7 +56,7 @@ impl<'a> From<&NavHpPosLlhRef<'a>> for Position {
         Position {
             lon: packet.lon_degrees() + packet.lon_hp_degrees(),
             lat: packet.lat_degrees() + packet.lat_hp_degrees(),
-            alt: packet.height_msl() + packet.height_hp_msl(),
+            alt: packet.height_msl() + 1e-3 * packet.height_hp_msl(),
         }
     }
 }
-- 
2.43.0


From 217fbf5b923fc74588c8d35a91877379ad95ae8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:30 +0000
Subject: [PATCH 03/12] fix: PositionECEF from NAV-HPPOSECEF was ten times too
 large

10e-2 is 0.1; centimetres to metres is 1e-2.
---
 ublox/src/ubx_packets/types.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ublox/src/ubx_packets/types.rs b/ublox/src/ubx_packets/types.rs
index 42ff034..02b0661 100644
--- a/ublox/src/ubx_packets/types.rs
+++ b/ublox/src/ubx_packets/types.rs
@@ -64,9 +64,9 @@ impl<'a> From<&NavHpPosLlhRef<'a>> for Position {
 impl<'a> From<&NavHpPosEcefRef<'a>> for PositionECEF {
     fn from(packet: &NavHpPosEcefRef<'a>) -> Self {
         PositionECEF {
-            x: 10e-2 * (packet.ecef_x_cm() + 0.1 * packet.ecef_x_hp_mm()),
-            y: 10e-2 * (packet.ecef_y_cm() + 0.1 * packet.ecef_y_hp_mm()),
-            z: 10e-2 * (packet.ecef_z_cm() + 0.1 * packet.ecef_z_hp_mm()),
+            x: 1e-2 * (packet.ecef_x_cm() + 0.1 * packet.ecef_x_hp_mm()),
+            y: 1e-2 * (packet.ecef_y_cm() + 0.1 * packet.ecef_y_hp_mm()),
+            z: 1e-2 * (packet.ecef_z_cm() + 0.1 * packet.ecef_z_hp_mm()),
         }
     }
 }
-- 
2.43.0


From e1f071c3e9b704fee883a56446f7e1aaa74bad6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:18 +0000
Subject: [PATCH 04/12] fix: extend_to corrupted the output when it was not
 empty

The length was patched at absolute offsets 4 and 5 and the checksum was taken
from offset 2 of the whole buffer, so appending to a non-empty buffer damaged
the earlier bytes and produced a frame without length and a wrong checksum.
---
 ublox_derive/src/output.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ublox_derive/src/output.rs b/ublox_derive/src/output.rs
index 7e1ba73..fce5b22 100644
--- a/ublox_derive/src/output.rs
+++ b/ublox_derive/src/output.rs
@@ -471,6 +471,7 @@ pub fn generate_send_code_for_packet(pack_descr: &PackDesc) -> TokenStream {
               {
                   // TODO: Enable when `extend_one` feature is stable.
                   // out.extend_reserve(6);
+                  let start = out.len();
                   let mut len_bytes = 0;
                   let header = [SYNC_CHAR_1, SYNC_CHAR_2, #main_name::CLASS, #main_name::ID, 0, 0];
                   // TODO: Extend all at once when we bump MSRV
@@ -481,10 +482,10 @@ pub fn generate_send_code_for_packet(pack_descr: &PackDesc) -> TokenStream {
                   #(#extend_fields);*;
 
                   let len_bytes = len_bytes.to_le_bytes();
-                  out[4] = len_bytes[0];
-                  out[5] = len_bytes[1];
+                  out[start + 4] = len_bytes[0];
+                  out[start + 5] = len_bytes[1];
 
-                  let (ck_a, ck_b) = ubx_checksum(&out[2..]);
+                  let (ck_a, ck_b) = ubx_checksum(&out[(start + 2)..]);
                   out.extend(core::iter::once(ck_a));
                   out.extend(core::iter::once(ck_b));
               }
-- 
2.43.0


From 452aca79f30288493ffe3ae625ffc963d48c8ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:18 +0000
Subject: [PATCH 05/12] fix: NAV-VELECEF Z velocity was decoded as unsigned

ecefVZ is I4 like the other two axes; southward velocities read as about 4.29e9.
---
 ublox/src/ubx_packets/packets.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 86f8bc0..2ca53d7 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -3518,7 +3518,7 @@ struct NavVelECEF {
     itow: u32,
     ecef_vx: i32,
     ecef_vy: i32,
-    ecef_vz: u32,
+    ecef_vz: i32,
     s_acc: u32,
 }
 
-- 
2.43.0


From de5fa42ec1e031c793ecfede27d3842c26a0b01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:18 +0000
Subject: [PATCH 06/12] fix: CFG-INF and CFG-NAVX5 responses were never
 delivered as their types

Both are declared as receivable but were missing from the list of received
packets, so polling them only ever produced unknown packets.
---
 ublox/src/ubx_packets/packets.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 2ca53d7..5893473 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -3686,6 +3686,8 @@ define_recv_packets!(
         CfgPrtSpi,
         CfgPrtUart,
         CfgNav5,
+        CfgNavX5,
+        CfgInf,
         CfgAnt,
         CfgTmode2,
         CfgTmode3,
-- 
2.43.0


From ea0698b037d5f76b293d62dd5d093965fc92e785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:18 +0000
Subject: [PATCH 07/12] fix: scaled fields panicked on NaN

as_i8/as_i16/as_i32 unwrapped the conversion of NaN. The bounds are also made
exclusive so that a bound rounded up by the float type (i32::MAX as f32)
saturates instead of failing the conversion.
---
 ublox/src/ubx_packets/packets.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 5893473..4d31911 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -2397,10 +2397,11 @@ impl<T: FloatCore + FromPrimitive + ToPrimitive> ScaleBack<T> {
         let x = (x * self.0).round();
         if x < T::from_i8(i8::min_value()).unwrap() {
             i8::min_value()
-        } else if x > T::from_i8(i8::max_value()).unwrap() {
+        } else if x >= T::from_i8(i8::max_value()).unwrap() {
             i8::max_value()
         } else {
-            x.to_i8().unwrap()
+            // only NaN has no value here
+            x.to_i8().unwrap_or(0)
         }
     }
 
@@ -2408,10 +2409,11 @@ impl<T: FloatCore + FromPrimitive + ToPrimitive> ScaleBack<T> {
         let x = (x * self.0).round();
         if x < T::from_i16(i16::min_value()).unwrap() {
             i16::min_value()
-        } else if x > T::from_i16(i16::max_value()).unwrap() {
+        } else if x >= T::from_i16(i16::max_value()).unwrap() {
             i16::max_value()
         } else {
-            x.to_i16().unwrap()
+            // only NaN has no value here
+            x.to_i16().unwrap_or(0)
         }
     }
 
@@ -2419,17 +2421,18 @@ impl<T: FloatCore + FromPrimitive + ToPrimitive> ScaleBack<T> {
         let x = (x * self.0).round();
         if x < T::from_i32(i32::MIN).unwrap() {
             i32::MIN
-        } else if x > T::from_i32(i32::MAX).unwrap() {
+        } else if x >= T::from_i32(i32::MAX).unwrap() {
             i32::MAX
         } else {
-            x.to_i32().unwrap()
+            // only NaN has no value here
+            x.to_i32().unwrap_or(0)
         }
     }
 
     fn as_u32(self, x: T) -> u32 {
         let x = (x * self.0).round();
         if !x.is_sign_negative() {
-            if x <= T::from_u32(u32::MAX).unwrap() {
+            if x < T::from_u32(u32::MAX).unwrap() {
                 x.to_u32().unwrap()
             } else {
                 u32::MAX
@@ -2442,7 +2445,7 @@ impl<T: FloatCore + FromPrimitive + ToPrimitive> ScaleBack<T> {
     fn as_u16(self, x: T) -> u16 {
         let x = (x * self.0).round();
         if !x.is_sign_negative() {
-            if x <= T::from_u16(u16::MAX).unwrap() {
+            if x < T::from_u16(u16::MAX).unwrap() {
                 x.to_u16().unwrap()
             } else {
                 u16::MAX
@@ -2455,7 +2458,7 @@ impl<T: FloatCore + FromPrimitive + ToPrimitive> ScaleBack<T> {
     fn as_u8(self, x: T) -> u8 {
         let x = (x * self.0).round();
         if !x.is_sign_negative() {
-            if x <= T::from_u8(u8::MAX).unwrap() {
+            if x < T::from_u8(u8::MAX).unwrap() {
                 x.to_u8().unwrap()
             } else {
                 u8::MAX
-- 
2.43.0


From dcb950d3800e23ba6152a6bc5cbe94da76d1ecf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:18 +0000
Subject: [PATCH 08/12] fix: CFG-ITFM words were decoded and encoded from the
 wrong bits

The CW threshold and the algorithm bits were taken from bit 0 of the word and
all components kept the bits of their neighbours, so writing a received CFG-ITFM
back changed it. The antenna setting was encoded in bits 0-1 of config2 instead
of the bits 12-13 it is decoded from.
---
 ublox/src/ubx_packets/packets.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 4d31911..dd6c6ef 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -905,9 +905,12 @@ impl CfgItfmConfig {
 impl From<u32> for CfgItfmConfig {
     fn from(cfg: u32) -> Self {
         let enable = (cfg & 0x80000000) > 0;
-        let bb_threshold = CfgItfmBbThreshold::from(cfg);
-        let cw_threshold = CfgItfmCwThreshold::from(cfg);
-        let algorithm_bits = CfgItfmAlgoBits::from(cfg);
+        let bb_threshold = CfgItfmBbThreshold::from(cfg & CfgItfmBbThreshold::MASK);
+        let cw_threshold = CfgItfmCwThreshold::from(
+            (cfg >> CfgItfmCwThreshold::POSITION) & CfgItfmCwThreshold::MASK,
+        );
+        let algorithm_bits =
+            CfgItfmAlgoBits::from((cfg >> CfgItfmAlgoBits::POSITION) & CfgItfmAlgoBits::MASK);
         Self {
             enable,
             bb_threshold,
@@ -1017,14 +1020,14 @@ impl CfgItfmConfig2 {
     const fn into_raw(self) -> u32 {
         ((self.scan_aux_bands as u32) << 14)
             | self.general.into_raw()
-            | self.antenna.into_raw() as u32
+            | (self.antenna.into_raw() as u32) << 12
     }
 }
 
 impl From<u32> for CfgItfmConfig2 {
     fn from(cfg: u32) -> Self {
         let scan_aux_bands = (cfg & 0x4000) > 0;
-        let general = CfgItfmGeneralBits::from(cfg);
+        let general = CfgItfmGeneralBits::from(cfg & CfgItfmGeneralBits::MASK);
         let antenna = CfgItfmAntennaSettings::from(cfg);
         Self {
             scan_aux_bands,
-- 
2.43.0


From 250dc52a5f43f5a7324d91b2dbf002593678e010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:30 +0000
Subject: [PATCH 09/12] fix: AID-INI set_time sent the wrong month and no day

The packet carries UTC as YYMM (months from 1) and DDHHMMSS.
---
 ublox/src/ubx_packets/packets.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index dd6c6ef..78a3cf1 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -1263,8 +1263,9 @@ impl AidIniBuilder {
                 panic!("AID-INI packet only supports years after 2000");
             },
         } * 100
-            + tm.month0()) as u16;
-        self.tow_or_hms = tm.hour() * 10000 + tm.minute() * 100 + tm.second();
+            + tm.month()) as u16;
+        self.tow_or_hms =
+            tm.day() * 1_000_000 + tm.hour() * 10_000 + tm.minute() * 100 + tm.second();
         self.tow_ns = tm.nanosecond() as i32;
         self.flags |= (1 << 1) | (1 << 10);
         self
-- 
2.43.0


From 3fe24d0d83581d77ae7d84501fe2bb052a6ff791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:10 +0000
Subject: [PATCH 10/12] fix: MGA-GPS parameters had decimal or unit scales
 instead of powers of two

The protocol scales are powers of two (2^-31 and so on), and the
ionospheric beta terms have positive exponents.
---
 ublox/src/ubx_packets/packets.rs | 58 ++++++++++++++++----------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/ublox/src/ubx_packets/packets.rs b/ublox/src/ubx_packets/packets.rs
index 78a3cf1..9a5b494 100644
--- a/ublox/src/ubx_packets/packets.rs
+++ b/ublox/src/ubx_packets/packets.rs
@@ -2656,28 +2656,28 @@ struct MgaGpsIono {
     version: u8,
     reserved1: [u8; 2],
     /// Ionospheric parameter alpha0 [s]
-    #[ubx(map_type = f64, scale = 1.0)] // 2^-30
+    #[ubx(map_type = f64, scale = 9.313225746154785e-10)] // 2^-30
     alpha0: i8,
     /// Ionospheric parameter alpha1 [s/semi-circle]
-    #[ubx(map_type = f64, scale = 1.0)] // 2^-27
+    #[ubx(map_type = f64, scale = 7.450580596923828e-09)] // 2^-27
     alpha1: i8,
     /// Ionospheric parameter alpha1 [s/semi-circle^2]
-    #[ubx(map_type = f64, scale = 1.0)] // 2^-24
+    #[ubx(map_type = f64, scale = 5.960464477539063e-08)] // 2^-24
     alpha2: i8,
     /// Ionospheric parameter alpha1 [s/semi-circle^3]
-    #[ubx(map_type = f64, scale = 1.0)] // 2^-24
+    #[ubx(map_type = f64, scale = 5.960464477539063e-08)] // 2^-24
     alpha3: i8,
     /// Ionospheric parameter beta0 [s]
-    #[ubx(map_type = f64, scale = 1.0)] // 2^-11
+    #[ubx(map_type = f64, scale = 2048.0)] // 2^11
     beta0: i8,
     /// Ionospheric parameter beta0 [s/semi-circle]
-    #[ubx(map_type = f64, scale = 1.0)] // 2^-14
+    #[ubx(map_type = f64, scale = 16384.0)] // 2^14
     beta1: i8,
     /// Ionospheric parameter beta0 [s/semi-circle^2]
-    #[ubx(map_type = f64, scale = 1.0)] // 2^-16
+    #[ubx(map_type = f64, scale = 65536.0)] // 2^16
     beta2: i8,
     /// Ionospheric parameter beta0 [s/semi-circle^3]
-    #[ubx(map_type = f64, scale = 1.0)] // 2^-16
+    #[ubx(map_type = f64, scale = 65536.0)] // 2^16
     beta3: i8,
     reserved2: [u8; 4],
 }
@@ -3539,49 +3539,49 @@ struct MgaGpsEPH {
     fit_interval: u8,
     ura_index: u8,
     sv_health: u8,
-    #[ubx(map_type = f64, scale = 2e-31)]
+    #[ubx(map_type = f64, scale = 4.656612873077393e-10)] // 2^-31
     tgd: i8,
     iodc: u16,
-    #[ubx(map_type = f64, scale = 2e+4)]
+    #[ubx(map_type = f64, scale = 16.0)] // 2^4
     toc: u16,
     reserved2: u8,
-    #[ubx(map_type = f64, scale = 2e-55)]
+    #[ubx(map_type = f64, scale = 2.7755575615628914e-17)] // 2^-55
     af2: i8,
-    #[ubx(map_type = f64, scale = 2e-43)]
+    #[ubx(map_type = f64, scale = 1.1368683772161603e-13)] // 2^-43
     afl: i16,
-    #[ubx(map_type = f64, scale = 2e-31)]
+    #[ubx(map_type = f64, scale = 4.656612873077393e-10)] // 2^-31
     af0: i32,
-    #[ubx(map_type = f64, scale = 2e-5)]
+    #[ubx(map_type = f64, scale = 0.03125)] // 2^-5
     crs: i16,
-    #[ubx(map_type = f64, scale = 2e-43)]
+    #[ubx(map_type = f64, scale = 1.1368683772161603e-13)] // 2^-43
     delta_n: i16,
-    #[ubx(map_type = f64, scale = 2e-31)]
+    #[ubx(map_type = f64, scale = 4.656612873077393e-10)] // 2^-31
     m0: i32,
-    #[ubx(map_type = f64, scale = 2e-29)]
+    #[ubx(map_type = f64, scale = 1.862645149230957e-09)] // 2^-29
     cuc: i16,
-    #[ubx(map_type = f64, scale = 2e-29)]
+    #[ubx(map_type = f64, scale = 1.862645149230957e-09)] // 2^-29
     cus: i16,
-    #[ubx(map_type = f64, scale = 2e-33)]
+    #[ubx(map_type = f64, scale = 1.1641532182693481e-10)] // 2^-33
     e: u32,
-    #[ubx(map_type = f64, scale = 2e-19)]
+    #[ubx(map_type = f64, scale = 1.9073486328125e-06)] // 2^-19
     sqrt_a: u32,
-    #[ubx(map_type = f64, scale = 2e+4)]
+    #[ubx(map_type = f64, scale = 16.0)] // 2^4
     toe: u16,
-    #[ubx(map_type = f64, scale = 2e-29)]
+    #[ubx(map_type = f64, scale = 1.862645149230957e-09)] // 2^-29
     cic: i16,
-    #[ubx(map_type = f64, scale = 2e-31)]
+    #[ubx(map_type = f64, scale = 4.656612873077393e-10)] // 2^-31
     omega0: i32,
-    #[ubx(map_type = f64, scale = 2e-29)]
+    #[ubx(map_type = f64, scale = 1.862645149230957e-09)] // 2^-29
     cis: i16,
-    #[ubx(map_type = f64, scale = 2e-5)]
+    #[ubx(map_type = f64, scale = 0.03125)] // 2^-5
     crc: i16,
-    #[ubx(map_type = f64, scale = 2e-31)]
+    #[ubx(map_type = f64, scale = 4.656612873077393e-10)] // 2^-31
     i0: i32,
-    #[ubx(map_type = f64, scale = 2e-31)]
+    #[ubx(map_type = f64, scale = 4.656612873077393e-10)] // 2^-31
     omega: i32,
-    #[ubx(map_type = f64, scale = 2e-43)]
+    #[ubx(map_type = f64, scale = 1.1368683772161603e-13)] // 2^-43
     omega_dot: i32,
-    #[ubx(map_type = f64, scale = 2e-43)]
+    #[ubx(map_type = f64, scale = 1.1368683772161603e-13)] // 2^-43
     idot: i16,
     reserved3: [u8; 2],
 }
-- 
2.43.0


From f6d09cf1612b644ffc7a8a10c2de0c5517518914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:10 +0000
Subject: [PATCH 11/12] fix: draining more bytes than a Vec holds panicked

UnderlyingBuffer::drain is documented as unable to fail.
---
 ublox/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ublox/src/parser.rs b/ublox/src/parser.rs
index 051daca..13bfda8 100644
--- a/ublox/src/parser.rs
+++ b/ublox/src/parser.rs
@@ -71,7 +71,7 @@ impl UnderlyingBuffer for Vec<u8> {
     }
 
     fn drain(&mut self, count: usize) {
-        self.drain(0..count);
+        self.drain(0..count.min(self.len()));
     }
 
     fn find(&self, value: u8) -> Option<usize> {
-- 
2.43.0


From fcb361a1195718eb70fa9e5410d7a58a96e62704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:38 +0000
Subject: [PATCH 12/12] fix: a buffer smaller than a header lost bytes silently
 and never recovered

With the documented minimum of 4 bytes, a header split after its fourth
byte filled the buffer and every later byte was dropped without an error.
---
 ublox/src/parser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ublox/src/parser.rs b/ublox/src/parser.rs
index 13bfda8..9c15056 100644
--- a/ublox/src/parser.rs
+++ b/ublox/src/parser.rs
@@ -485,6 +485,11 @@ impl<'a, T: UnderlyingBuffer> ParserIter<'a, T> {
             }
 
             if self.buf.len() < 6 {
+                if self.buf.potential_lost_bytes() > 0 {
+                    // The buffer can't even hold a header, drop this packet and move on
+                    self.buf.drain(2);
+                    return Some(Err(ParserError::OutOfMemory { required_size: 6 }));
+                }
                 return None;
             }
 
-- 
2.43.0

