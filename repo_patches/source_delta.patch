From 1c5ef5ed372601aed4ff3742baac3d8f6a17bbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:19 +0000
Subject: [PATCH 01/31] fix: ForwardAction serialization referred to a
 non-existing group attribute

---
 d7a/alp/forward_action.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/d7a/alp/forward_action.py b/d7a/alp/forward_action.py
index b1e4814..74c9304 100644
--- a/d7a/alp/forward_action.py
+++ b/d7a/alp/forward_action.py
@@ -42,7 +42,6 @@ class ForwardAction(Action):
 
   def __iter__(self):
     byte = 0
-    if self.group: byte |= 1 << 7
     if self.resp:  byte |= 1 << 6
     byte += self.op
     yield byte
-- 
2.43.0


From 3acbf147fbce54308e80a66775c1a6db8a868811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:19 +0000
Subject: [PATCH 02/31] fix: Addressee.parse compressed the already compressed
 NBID byte again

---
 d7a/d7anp/addressee.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/d7a/d7anp/addressee.py b/d7a/d7anp/addressee.py
index 9a287ba..dfc3cc4 100644
--- a/d7a/d7anp/addressee.py
+++ b/d7a/d7anp/addressee.py
@@ -123,9 +123,10 @@ class Addressee(Validatable):
     nls_method = NlsMethod(s.read("uint:4"))
     cl    = s.read("uint:8")
     l     = Addressee.length_for(id_type)
-    id    = s.read("uint:"+str(l*8)) if l > 0 else None
     if id_type == IdType.NBID:
-      id = CT().compress(value=id)
+      id = CT.parse(s)
+    else:
+      id = s.read("uint:"+str(l*8)) if l > 0 else None
 
     return Addressee(id_type=id_type, access_class=cl, id=id, nls_method=nls_method)
 
-- 
2.43.0


From 15bd431ac0569488d4f5937f2d2f1c8d9ea5c707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:19 +0000
Subject: [PATCH 03/31] fix: Status.parse read the unsigned rx_level as a
 signed integer

---
 d7a/sp/status.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/sp/status.py b/d7a/sp/status.py
index a4edd06..1733bb5 100644
--- a/d7a/sp/status.py
+++ b/d7a/sp/status.py
@@ -88,7 +88,7 @@ class Status(Validatable):
   @staticmethod
   def parse(s):
     channel_id  = ChannelID.parse(s)
-    rx_level        = s.read("int:8")
+    rx_level        = s.read("uint:8")
     link_budget     = s.read("uint:8")
     target_rx_level = s.read("uint:8")
     nls             = s.read("bool")
-- 
2.43.0


From d0771880b6a0144bd8eae846ff642e8b2c3ffa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:19 +0000
Subject: [PATCH 04/31] fix: D7ANP Control serialization used a non-existing
 attribute and added enum members

---
 d7a/d7anp/control.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/d7a/d7anp/control.py b/d7a/d7anp/control.py
index e863db7..f998da6 100644
--- a/d7a/d7anp/control.py
+++ b/d7a/d7anp/control.py
@@ -52,7 +52,7 @@ class Control(Validatable):
   def __iter__(self):
     byte = 0
     if self.has_no_origin_access_id: byte |= 1 << 7
-    if self.has_multi_hop:  byte |= 1 << 6
-    if self.origin_id_type:  byte |= 1 << 4
-    byte += self.nls_method
+    if self.has_hopping:  byte |= 1 << 6
+    byte |= self.origin_id_type.value << 4
+    byte += self.nls_method.value
     yield byte
\ No newline at end of file
-- 
2.43.0


From c1ac8c69aa9477970901aed0251d3e2b19cc257f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:19 +0000
Subject: [PATCH 05/31] fix: DLL frame length and subnet are unsigned bytes

---
 d7a/dll/background_frame.py | 2 +-
 d7a/dll/foreground_frame.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/d7a/dll/background_frame.py b/d7a/dll/background_frame.py
index d36726f..440a5e6 100644
--- a/d7a/dll/background_frame.py
+++ b/d7a/dll/background_frame.py
@@ -59,7 +59,7 @@ class BackgroundFrame(Validatable):
 
   @staticmethod
   def parse(s):
-    subnet = s.read("int:8")
+    subnet = s.read("uint:8")
     control = BackgroundFrameControl.parse(s)
     payload = s.read("uint:16")
     crc = s.read("uint:16")
diff --git a/d7a/dll/foreground_frame.py b/d7a/dll/foreground_frame.py
index 2efe957..f32d215 100644
--- a/d7a/dll/foreground_frame.py
+++ b/d7a/dll/foreground_frame.py
@@ -63,8 +63,8 @@ class ForegroundFrame(Validatable):
 
   @staticmethod
   def parse(s):
-    length = s.read("int:8")
-    subnet = s.read("int:8")
+    length = s.read("uint:8")
+    subnet = s.read("uint:8")
     control = ForegroundFrameControl.parse(s)
     payload_length = length - 4 # substract subnet, control, crc
     if control.id_type == IdType.VID:
-- 
2.43.0


From 268d1cc67e27da2f7eb68a46a16bacb99c0fbd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 06/31] fix: serialize the 16 bit fields of DLL frames as two
 bytes

---
 d7a/dll/background_frame.py | 5 +++--
 d7a/dll/foreground_frame.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/d7a/dll/background_frame.py b/d7a/dll/background_frame.py
index 440a5e6..27f32e8 100644
--- a/d7a/dll/background_frame.py
+++ b/d7a/dll/background_frame.py
@@ -22,6 +22,7 @@
 # under the License.
 #
 import pprint
+import struct
 
 from d7a.d7anp.addressee import IdType
 from d7a.support.schema           import Validatable, Types
@@ -75,8 +76,8 @@ class BackgroundFrame(Validatable):
   def __iter__(self):
     yield self.subnet
     for byte in self.control: yield byte
-    for byte in self.payload: yield byte
-    yield self.crc16
+    for byte in bytearray(struct.pack(">H", self.payload)): yield byte
+    for byte in bytearray(struct.pack(">H", self.crc16)): yield byte
 
   def __str__(self):
     return pprint.PrettyPrinter().pformat(self.as_dict())
diff --git a/d7a/dll/foreground_frame.py b/d7a/dll/foreground_frame.py
index f32d215..2f033df 100644
--- a/d7a/dll/foreground_frame.py
+++ b/d7a/dll/foreground_frame.py
@@ -22,6 +22,7 @@
 # under the License.
 #
 import pprint
+import struct
 
 from d7a.d7anp.addressee import IdType
 from d7a.support.schema           import Validatable, Types
@@ -92,7 +93,7 @@ class ForegroundFrame(Validatable):
     for byte in self.control: yield byte
     for byte in self.target_address: yield byte
     for byte in self.d7anp_frame: yield byte
-    yield self.crc16
+    for byte in bytearray(struct.pack(">H", self.crc16)): yield byte
 
   def __str__(self):
     return pprint.PrettyPrinter().pformat(self.as_dict())
-- 
2.43.0


From 31cfe53e79be1d941420adb2b7d573ba82fd6626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 07/31] fix: D7ATP Frame serialization yielded CT objects
 instead of bytes and dropped Tc

---
 d7a/d7atp/frame.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/d7a/d7atp/frame.py b/d7a/d7atp/frame.py
index 4b1c367..4f96379 100644
--- a/d7a/d7atp/frame.py
+++ b/d7a/d7atp/frame.py
@@ -129,10 +129,13 @@ class Frame(Validatable):
       yield self.agc_rx_level_i
 
     if self.control.has_tl:
-      yield self.tl
+      for byte in self.tl: yield byte
 
     if self.control.has_te:
-      yield self.te
+      for byte in self.te: yield byte
+
+    if self.tc is not None:
+      for byte in self.tc: yield byte
 
     if self.control.is_ack_not_void:
       for byte in self.ack_template: yield byte
-- 
2.43.0


From a71e984a7f2fd5115efb1b6e36402060b85f5646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 08/31] fix: parse the key of key files as the (little endian)
 integer the schema requires

---
 d7a/system_files/root_authentication_key.py | 2 +-
 d7a/system_files/security_key.py            | 2 +-
 d7a/system_files/user_authentication_key.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/d7a/system_files/root_authentication_key.py b/d7a/system_files/root_authentication_key.py
index 9e6bc13..59e453e 100644
--- a/d7a/system_files/root_authentication_key.py
+++ b/d7a/system_files/root_authentication_key.py
@@ -43,7 +43,7 @@ class RootAuthenticationKeyFile(File, Validatable):
 
   @staticmethod
   def parse(s):
-    key = s.read("bytes:16") 
+    key = s.read("uintle:128")
     _rfu = s.read("bytes:24")
     return RootAuthenticationKeyFile(key)
 
diff --git a/d7a/system_files/security_key.py b/d7a/system_files/security_key.py
index c9085e2..52cfa5e 100644
--- a/d7a/system_files/security_key.py
+++ b/d7a/system_files/security_key.py
@@ -41,7 +41,7 @@ class SecurityKeyFile(File, Validatable):
 
   @staticmethod
   def parse(s):
-    key = s.read("bytes:16")
+    key = s.read("uintle:128")
     return SecurityKeyFile(key=key)
 
   def __iter__(self):
diff --git a/d7a/system_files/user_authentication_key.py b/d7a/system_files/user_authentication_key.py
index fd95a60..42a718e 100644
--- a/d7a/system_files/user_authentication_key.py
+++ b/d7a/system_files/user_authentication_key.py
@@ -43,7 +43,7 @@ class UserAuthenticationKeyFile(File, Validatable):
 
   @staticmethod
   def parse(s):
-    key = s.read("bytes:16")
+    key = s.read("uintle:128")
     _rfu = s.read("bytes:24")
     return UserAuthenticationKeyFile(key)
 
-- 
2.43.0


From 95c154c2105cd172df2910f56db82215985b2bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 09/31] fix: PhyStatusFile instances shared (and extended)
 their default and caller's lists

---
 d7a/system_files/phy_status.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/d7a/system_files/phy_status.py b/d7a/system_files/phy_status.py
index 7f233c5..429b477 100644
--- a/d7a/system_files/phy_status.py
+++ b/d7a/system_files/phy_status.py
@@ -39,20 +39,20 @@ class PhyStatusFile(File, Validatable):
     "channel_noise_floor": Types.LIST(minlength=0, maxlength=0xFF)
   }]
 
-  def __init__(self, up_time=0, rx_time=0, tx_time=0, tx_duty_cycle=0, channel_status_list_length=0, channel_status_identifier=[], channel_noise_floor=[]):
+  def __init__(self, up_time=0, rx_time=0, tx_time=0, tx_duty_cycle=0, channel_status_list_length=0, channel_status_identifier=None, channel_noise_floor=None):
     self.up_time = up_time
     self.rx_time = rx_time
     self.tx_time = tx_time
     self.tx_duty_cycle = tx_duty_cycle
     self.channel_status_list_length = channel_status_list_length
 
-    self.channel_status_identifier = channel_status_identifier
-    if len(channel_status_identifier) != channel_status_list_length:
-      self.channel_status_identifier.extend([ChannelStatusIdentifier()] * (channel_status_list_length - len(channel_status_identifier)))
+    self.channel_status_identifier = list(channel_status_identifier or [])
+    if len(self.channel_status_identifier) != channel_status_list_length:
+      self.channel_status_identifier.extend([ChannelStatusIdentifier()] * (channel_status_list_length - len(self.channel_status_identifier)))
 
-    self.channel_noise_floor = channel_noise_floor
-    if len(channel_noise_floor) != channel_status_list_length:
-      self.channel_noise_floor.extend([0] * (channel_status_list_length - len(channel_noise_floor)))
+    self.channel_noise_floor = list(channel_noise_floor or [])
+    if len(self.channel_noise_floor) != channel_status_list_length:
+      self.channel_noise_floor.extend([0] * (channel_status_list_length - len(self.channel_noise_floor)))
 
     File.__init__(self, SystemFileIds.PHY_STATUS.value, 15 + (3 * 10))  # allocate enough space for 20 channels
     Validatable.__init__(self)
-- 
2.43.0


From d48febde3d240b6b2c072417b98b47d825f75372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 10/31] fix: ChannelClass.to_char never returned the character
 from_char expects for LORA

---
 d7a/phy/channel_header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/phy/channel_header.py b/d7a/phy/channel_header.py
index ab7d86e..cc2be62 100644
--- a/d7a/phy/channel_header.py
+++ b/d7a/phy/channel_header.py
@@ -51,7 +51,7 @@ class ChannelClass(Enum):
 
   def to_char(self):
     c = self.name[:1]
-    if self.value == ChannelClass.LORA:
+    if self == ChannelClass.LORA:
       c = "R"
 
     return c
-- 
2.43.0


From c6a2dec4ed4ced60c6c7788c20226b11facf112a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 11/31] fix: ChannelID.from_string truncated indices of more
 than 3 digits

---
 d7a/phy/channel_id.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/phy/channel_id.py b/d7a/phy/channel_id.py
index 3f82806..ae364c5 100644
--- a/d7a/phy/channel_id.py
+++ b/d7a/phy/channel_id.py
@@ -56,5 +56,5 @@ class ChannelID(Validatable):
   @staticmethod
   def from_string(s):
       channel_header = ChannelHeader.from_string(s[0:5])
-      channel_index = int(s[5:8])
+      channel_index = int(s[5:])
       return ChannelID(channel_header=channel_header, channel_index=channel_index)
\ No newline at end of file
-- 
2.43.0


From ce573821e8fb0032466ea67cf54ffad2a60c4127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:00 +0000
Subject: [PATCH 12/31] fix: use the numeric file id for all not implemented
 system files

---
 d7a/system_files/system_files.py | 40 ++++++++++++++++----------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/d7a/system_files/system_files.py b/d7a/system_files/system_files.py
index 42d8e64..1c0eb25 100644
--- a/d7a/system_files/system_files.py
+++ b/d7a/system_files/system_files.py
@@ -43,34 +43,34 @@ class SystemFiles:
     SystemFileIds.FACTORY_SETTINGS: FactorySettingsFile(),
     SystemFileIds.FIRMWARE_VERSION: FirmwareVersionFile(),
     SystemFileIds.DEVICE_CAPACITY: NotImplementedFile(SystemFileIds.DEVICE_CAPACITY.value, 19),
-    SystemFileIds.DEVICE_STATUS: NotImplementedFile(SystemFileIds.DEVICE_STATUS, 9),
+    SystemFileIds.DEVICE_STATUS: NotImplementedFile(SystemFileIds.DEVICE_STATUS.value, 9),
     SystemFileIds.ENGINEERING_MODE: EngineeringModeFile(),
     SystemFileIds.VID: VidFile(),
-    SystemFileIds.RFU_07: NotImplementedFile(SystemFileIds.RFU_07, 0),
-    SystemFileIds.PHY_CONFIG: NotImplementedFile(SystemFileIds.PHY_CONFIG, 9),
+    SystemFileIds.RFU_07: NotImplementedFile(SystemFileIds.RFU_07.value, 0),
+    SystemFileIds.PHY_CONFIG: NotImplementedFile(SystemFileIds.PHY_CONFIG.value, 9),
     SystemFileIds.PHY_STATUS: PhyStatusFile(),  # TODO assuming 3 channels for now
     SystemFileIds.DLL_CONFIG: DllConfigFile(),
     SystemFileIds.DLL_STATUS: DllStatusFile(),
-    SystemFileIds.NWL_ROUTING: NotImplementedFile(SystemFileIds.NWL_ROUTING, 1),  # TODO variable routing table
-    SystemFileIds.NWL_SECURITY: NotImplementedFile(SystemFileIds.NWL_SECURITY, 5),
+    SystemFileIds.NWL_ROUTING: NotImplementedFile(SystemFileIds.NWL_ROUTING.value, 1),  # TODO variable routing table
+    SystemFileIds.NWL_SECURITY: NotImplementedFile(SystemFileIds.NWL_SECURITY.value, 5),
     SystemFileIds.NWL_SECURITY_KEY: SecurityKeyFile(),
-    SystemFileIds.NWL_SSR: NotImplementedFile(SystemFileIds.NWL_SSR, 4),  # TODO 0 recorded devices
-    SystemFileIds.NWL_STATUS: NotImplementedFile(SystemFileIds.NWL_STATUS, 20),
-    SystemFileIds.TRL_STATUS: NotImplementedFile(SystemFileIds.TRL_STATUS, 1),  # TODO 0 TRL records
-    SystemFileIds.SEL_CONFIG: NotImplementedFile(SystemFileIds.SEL_CONFIG, 6),
-    SystemFileIds.FOF_STATUS: NotImplementedFile(SystemFileIds.FOF_STATUS, 10),
-    SystemFileIds.RFU_14: NotImplementedFile(SystemFileIds.RFU_14, 0),
-    SystemFileIds.RFU_15: NotImplementedFile(SystemFileIds.RFU_15, 0),
-    SystemFileIds.RFU_16: NotImplementedFile(SystemFileIds.RFU_16, 0),
-    SystemFileIds.LOCATION_DATA: NotImplementedFile(SystemFileIds.LOCATION_DATA, 1),  # TODO 0 recorded locations
+    SystemFileIds.NWL_SSR: NotImplementedFile(SystemFileIds.NWL_SSR.value, 4),  # TODO 0 recorded devices
+    SystemFileIds.NWL_STATUS: NotImplementedFile(SystemFileIds.NWL_STATUS.value, 20),
+    SystemFileIds.TRL_STATUS: NotImplementedFile(SystemFileIds.TRL_STATUS.value, 1),  # TODO 0 TRL records
+    SystemFileIds.SEL_CONFIG: NotImplementedFile(SystemFileIds.SEL_CONFIG.value, 6),
+    SystemFileIds.FOF_STATUS: NotImplementedFile(SystemFileIds.FOF_STATUS.value, 10),
+    SystemFileIds.RFU_14: NotImplementedFile(SystemFileIds.RFU_14.value, 0),
+    SystemFileIds.RFU_15: NotImplementedFile(SystemFileIds.RFU_15.value, 0),
+    SystemFileIds.RFU_16: NotImplementedFile(SystemFileIds.RFU_16.value, 0),
+    SystemFileIds.LOCATION_DATA: NotImplementedFile(SystemFileIds.LOCATION_DATA.value, 1),  # TODO 0 recorded locations
     SystemFileIds.ALP_ROOT_AUTHENTICATION_KEY: RootAuthenticationKeyFile(),
     SystemFileIds.ALP_USER_AUTHENTICATION_KEY: UserAuthenticationKeyFile(),
-    SystemFileIds.D7AALP_RFU_1A: NotImplementedFile(SystemFileIds.D7AALP_RFU_1A, 0),
-    SystemFileIds.D7AALP_RFU_1B: NotImplementedFile(SystemFileIds.D7AALP_RFU_1B, 0),
-    SystemFileIds.D7AALP_RFU_1C: NotImplementedFile(SystemFileIds.D7AALP_RFU_1C, 0),
-    SystemFileIds.D7AALP_RFU_1D: NotImplementedFile(SystemFileIds.D7AALP_RFU_1D, 0),
-    SystemFileIds.D7AALP_RFU_1E: NotImplementedFile(SystemFileIds.D7AALP_RFU_1E, 0),
-    SystemFileIds.D7AALP_RFU_1F: NotImplementedFile(SystemFileIds.D7AALP_RFU_1F, 0),
+    SystemFileIds.D7AALP_RFU_1A: NotImplementedFile(SystemFileIds.D7AALP_RFU_1A.value, 0),
+    SystemFileIds.D7AALP_RFU_1B: NotImplementedFile(SystemFileIds.D7AALP_RFU_1B.value, 0),
+    SystemFileIds.D7AALP_RFU_1C: NotImplementedFile(SystemFileIds.D7AALP_RFU_1C.value, 0),
+    SystemFileIds.D7AALP_RFU_1D: NotImplementedFile(SystemFileIds.D7AALP_RFU_1D.value, 0),
+    SystemFileIds.D7AALP_RFU_1E: NotImplementedFile(SystemFileIds.D7AALP_RFU_1E.value, 0),
+    SystemFileIds.D7AALP_RFU_1F: NotImplementedFile(SystemFileIds.D7AALP_RFU_1F.value, 0),
     SystemFileIds.ACCESS_PROFILE_0: AccessProfileFile(access_specifier=0),
     SystemFileIds.ACCESS_PROFILE_1: AccessProfileFile(access_specifier=1),
     SystemFileIds.ACCESS_PROFILE_2: AccessProfileFile(access_specifier=2),
-- 
2.43.0


From 84372552f75be95244373cd621f3faa9eb093c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:28 +0000
Subject: [PATCH 13/31] fix: FactorySettingsFile gain and rssi_offset are
 signed bytes

---
 d7a/system_files/factory_settings.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/d7a/system_files/factory_settings.py b/d7a/system_files/factory_settings.py
index 4bc2156..464d0da 100644
--- a/d7a/system_files/factory_settings.py
+++ b/d7a/system_files/factory_settings.py
@@ -119,7 +119,7 @@ class FactorySettingsFile(File, Validatable):
     preamble_tol_hi_rate = s.read("uint:8")
 
     rssi_smoothing = s.read("uint:8")
-    rssi_offset = s.read("uint:8")
+    rssi_offset = s.read("int:8")
 
     lora_bw = s.read("uint:32")
     lora_SF = s.read("uint:8")
@@ -141,7 +141,8 @@ class FactorySettingsFile(File, Validatable):
                                gaussian=gaussian, paramp=paramp)
 
   def __iter__(self):
-    yield self.gain
+    for byte in bytearray(struct.pack("b", self.gain)):
+      yield byte
     for byte in bytearray(struct.pack(">I", self.rx_bw_low_rate)):
       yield byte
     for byte in bytearray(struct.pack(">I", self.rx_bw_normal_rate)):
@@ -170,7 +171,8 @@ class FactorySettingsFile(File, Validatable):
     yield self.preamble_tol_normal_rate
     yield self.preamble_tol_hi_rate
     yield self.rssi_smoothing
-    yield self.rssi_offset
+    for byte in bytearray(struct.pack("b", self.rssi_offset)):
+      yield byte
     for byte in bytearray(struct.pack(">I", self.lora_bw)):
       yield byte
     yield self.lora_SF
-- 
2.43.0


From 6080bd7b9da62ee9f5ccf9792c334726faeca43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:28 +0000
Subject: [PATCH 14/31] fix: FactorySettingsFile.parse encoded the already
 encoded rssi_smoothing again

---
 d7a/system_files/factory_settings.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/d7a/system_files/factory_settings.py b/d7a/system_files/factory_settings.py
index 464d0da..bdd390f 100644
--- a/d7a/system_files/factory_settings.py
+++ b/d7a/system_files/factory_settings.py
@@ -127,7 +127,7 @@ class FactorySettingsFile(File, Validatable):
     gaussian = s.read("uint:8")
     paramp = s.read("uint:16")
 
-    return FactorySettingsFile(gain=gain, rx_bw_low_rate=rx_bw_low_rate, rx_bw_normal_rate=rx_bw_normal_rate, rx_bw_high_rate=rx_bw_high_rate,
+    factory_settings = FactorySettingsFile(gain=gain, rx_bw_low_rate=rx_bw_low_rate, rx_bw_normal_rate=rx_bw_normal_rate, rx_bw_high_rate=rx_bw_high_rate,
                                bitrate_lo_rate=bitrate_lo_rate, fdev_lo_rate=fdev_lo_rate,
                                bitrate_normal_rate=bitrate_normal_rate, fdev_normal_rate=fdev_normal_rate,
                                bitrate_hi_rate=bitrate_hi_rate, fdev_hi_rate=fdev_hi_rate,
@@ -136,9 +136,12 @@ class FactorySettingsFile(File, Validatable):
                                preamble_detector_size_normal_rate=preamble_detector_size_normal_rate, preamble_detector_size_hi_rate = preamble_detector_size_hi_rate,
                                preamble_tol_lo_rate = preamble_tol_lo_rate, preamble_tol_normal_rate = preamble_tol_normal_rate,
                                preamble_tol_hi_rate = preamble_tol_hi_rate,
-                               rssi_smoothing=rssi_smoothing, rssi_offset=rssi_offset,
+                               rssi_offset=rssi_offset,
                                lora_bw=lora_bw, lora_SF=lora_SF,
                                gaussian=gaussian, paramp=paramp)
+    # the file contains the encoded value already, while the constructor expects the number of samples
+    factory_settings.rssi_smoothing = rssi_smoothing
+    return factory_settings
 
   def __iter__(self):
     for byte in bytearray(struct.pack("b", self.gain)):
-- 
2.43.0


From 02d3defb40df8fc7f5e59c38964b2b7108737076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:28 +0000
Subject: [PATCH 15/31] fix: schema keys which did not match their attribute
 were never validated

---
 d7a/fs/file_permissions.py           | 8 ++++----
 d7a/fs/file_properties.py            | 2 +-
 d7a/sp/status.py                     | 2 +-
 d7a/system_files/dll_config.py       | 8 ++++----
 d7a/system_files/factory_settings.py | 4 +++-
 5 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/d7a/fs/file_permissions.py b/d7a/fs/file_permissions.py
index 357f8cd..d27b76b 100644
--- a/d7a/fs/file_permissions.py
+++ b/d7a/fs/file_permissions.py
@@ -29,11 +29,11 @@ class FilePermissions(Validatable):
     "encrypted": Types.BOOLEAN(),
     "executable": Types.BOOLEAN(),
     "user_readable": Types.BOOLEAN(),
-    "user_writable": Types.BOOLEAN(),
-    "user_executable": Types.BOOLEAN(),
+    "user_writeable": Types.BOOLEAN(),
+    "user_executeable": Types.BOOLEAN(),
     "guest_readable": Types.BOOLEAN(),
-    "guest_writable": Types.BOOLEAN(),
-    "guest_executable": Types.BOOLEAN()
+    "guest_writeable": Types.BOOLEAN(),
+    "guest_executeable": Types.BOOLEAN()
   }]
 
   def __init__(self, encrypted=False, executeable=False, user_readable=True, user_writeable=True, user_executeable=True,
diff --git a/d7a/fs/file_properties.py b/d7a/fs/file_properties.py
index ab2b3d7..4e621eb 100644
--- a/d7a/fs/file_properties.py
+++ b/d7a/fs/file_properties.py
@@ -43,7 +43,7 @@ class StorageClass(Enum):
 class FileProperties(Validatable):
   SCHEMA = [{
     "act_enabled": Types.BOOLEAN(),
-    "act_cond": Types.ENUM(ActionCondition),
+    "act_condition": Types.ENUM(ActionCondition),
     "storage_class": Types.ENUM(StorageClass),
   }]
 
diff --git a/d7a/sp/status.py b/d7a/sp/status.py
index 1733bb5..b0870b2 100644
--- a/d7a/sp/status.py
+++ b/d7a/sp/status.py
@@ -61,7 +61,7 @@ class Status(Validatable):
     "nls"        : Types.BOOLEAN(),
     "missed"     : Types.BOOLEAN(),
     "retry"      : Types.BOOLEAN(),
-    "ucast"      : Types.BOOLEAN(),
+    "unicast"    : Types.BOOLEAN(),
     "fifo_token" : Types.BYTE(),
     "seq_nr"     : Types.BYTE(),
     "response_to": Types.OBJECT(CT),
diff --git a/d7a/system_files/dll_config.py b/d7a/system_files/dll_config.py
index 2c1dc99..013ab7e 100644
--- a/d7a/system_files/dll_config.py
+++ b/d7a/system_files/dll_config.py
@@ -31,10 +31,10 @@ from d7a.system_files.system_file_ids import SystemFileIds
 class DllConfigFile(File, Validatable):
   SCHEMA = [{
     "active_access_class": Types.INTEGER(min=0, max=0xFF),
-    "LQ_filter": Types.INTEGER(min=0, max=0xFF),
-    "NF_CTRL": Types.INTEGER(min=0, max=0xFF),
-    "RX_NF_method_parameter": Types.INTEGER(min=0, max=0xFF),
-    "TX_NF_method_parameter": Types.INTEGER(min=0, max=0xFF)
+    "lq_filter": Types.INTEGER(min=0, max=0xFF),
+    "nf_ctrl": Types.INTEGER(min=0, max=0xFF),
+    "rx_nf_method_parameter": Types.INTEGER(min=0, max=0xFF),
+    "tx_nf_method_parameter": Types.INTEGER(min=0, max=0xFF)
   }]
 
   def __init__(self, active_access_class=0, lq_filter=0x00, nf_ctrl=0x00, rx_nf_method_parameter=0x00
diff --git a/d7a/system_files/factory_settings.py b/d7a/system_files/factory_settings.py
index bdd390f..49ddc16 100644
--- a/d7a/system_files/factory_settings.py
+++ b/d7a/system_files/factory_settings.py
@@ -48,7 +48,9 @@ class FactorySettingsFile(File, Validatable):
     "preamble_detector_size_lo_rate": Types.INTEGER(min=0, max=255),
     "preamble_detector_size_normal_rate": Types.INTEGER(min=0, max=255),
     "preamble_detector_size_hi_rate": Types.INTEGER(min=0, max=255),
-    "preamble_tol": Types.INTEGER(min=0, max=255),
+    "preamble_tol_lo_rate": Types.INTEGER(min=0, max=255),
+    "preamble_tol_normal_rate": Types.INTEGER(min=0, max=255),
+    "preamble_tol_hi_rate": Types.INTEGER(min=0, max=255),
     "rssi_smoothing": Types.INTEGER(min=0, max=255),
     "rssi_offset": Types.INTEGER(min=-126, max=125),
     "lora_bw": Types.INTEGER(min=0, max=0xFFFFFFFF),
-- 
2.43.0


From 50cbf843968d1d70f2fcce5d70690a39163176fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:28 +0000
Subject: [PATCH 16/31] fix: Types.BITS maximum lost precision for more than 53
 bits

---
 d7a/support/schema.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/d7a/support/schema.py b/d7a/support/schema.py
index 9b93611..c695a9c 100644
--- a/d7a/support/schema.py
+++ b/d7a/support/schema.py
@@ -25,8 +25,6 @@
 # author: Christophe VG <contact@christophe.vg>
 # base class for schema-validatable entity classes
 
-import math
-
 from cerberus import Validator
 
 import inspect
@@ -139,7 +137,7 @@ class Types(object):
 
   @staticmethod
   def BITS(length, min=0x0, max=None):
-    max = max if max is not None else math.pow(2, length)-1
+    max = max if max is not None else (1 << length)-1
     return { "type": "integer", "min": 0x0, "max": max }
 
   @staticmethod
-- 
2.43.0


From fc1ff3864d27bd53d94c7fefa8d7e5e0595c2db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:53 +0000
Subject: [PATCH 17/31] fix: serial parser died on errors raised without
 message

---
 d7a/serial_modem_interface/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/serial_modem_interface/parser.py b/d7a/serial_modem_interface/parser.py
index 6f9536e..6d78c11 100644
--- a/d7a/serial_modem_interface/parser.py
+++ b/d7a/serial_modem_interface/parser.py
@@ -122,7 +122,7 @@ class Parser(object):
         retry = False
       except Exception as e: # actual problem with current buffer, need to skip
         errors.append({
-          "error"   : e.args[0],
+          "error"   : e.args[0] if e.args else e.__class__.__name__,
           "buffer"  : " ".join(map(lambda b: format(b, "02x"), self.buffer)),
           "pos"     : s.pos,
           "skipped" : self.skip_bad_buffer_content()
-- 
2.43.0


From 9c101ca8a81e2127240ba82e63564e56fb36397a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:53 +0000
Subject: [PATCH 18/31] fix: serial parser read ALP commands beyond the end of
 their frame

---
 d7a/serial_modem_interface/parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/d7a/serial_modem_interface/parser.py b/d7a/serial_modem_interface/parser.py
index 6d78c11..4bd0924 100644
--- a/d7a/serial_modem_interface/parser.py
+++ b/d7a/serial_modem_interface/parser.py
@@ -113,7 +113,12 @@ class Parser(object):
 
             cmd = s.read("bytes:" + str(cmd_length))
           else:
-            cmd = AlpParser().parse(s, cmd_length)
+            # the command has to be contained completely in the payload of this frame
+            payload = ConstBitStream(bytes=s.read("bytes:" + str(cmd_length)))
+            try:
+              cmd = AlpParser().parse(payload, cmd_length)
+            except ReadError:
+              raise ParseError("ALP command is not complete")
 
         bits_parsed = s.pos
         self.shift_buffer(bits_parsed/8)
-- 
2.43.0


From 4fdd432becc2cb954f0444c565254f0929f8d9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:53 +0000
Subject: [PATCH 19/31] fix: serial parser ignored the length of REBOOTED
 frames

---
 d7a/serial_modem_interface/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/d7a/serial_modem_interface/parser.py b/d7a/serial_modem_interface/parser.py
index 4bd0924..bdd5b0e 100644
--- a/d7a/serial_modem_interface/parser.py
+++ b/d7a/serial_modem_interface/parser.py
@@ -103,7 +103,9 @@ class Parser(object):
         s           = ConstBitStream(bytes=self.buffer)
         cmd_length, message_type = self.parse_serial_interface_header(s)
         if message_type == MessageType.REBOOTED.value:
-          cmd = s.read("uint:8")
+          if cmd_length < 1:
+            raise ParseError("reboot reason is missing")
+          cmd = ord(s.read("bytes:" + str(cmd_length))[0])
         elif message_type == MessageType.LOGGING.value:
           cmd = (s.readlist('bytes:b', b=cmd_length)[0])
         else:
-- 
2.43.0


From af45efed904dea5055ced16ca6d4a87cf332d2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:53 +0000
Subject: [PATCH 20/31] fix: InterfaceStatusOperand without status could not be
 serialized

---
 d7a/alp/operands/interface_status.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d7a/alp/operands/interface_status.py b/d7a/alp/operands/interface_status.py
index 5aa883b..74dc5e0 100644
--- a/d7a/alp/operands/interface_status.py
+++ b/d7a/alp/operands/interface_status.py
@@ -39,7 +39,8 @@ class InterfaceStatusOperand(Validatable):
 
   def __iter__(self):
     yield self.interface_id
-    for byte in self.interface_status: yield byte
+    if self.interface_status is not None:
+      for byte in self.interface_status: yield byte
 
   def __str__(self):
     return "interface-id={}, status={}".format(self.interface_id, self.interface_status)
-- 
2.43.0


From fdc5661f6373e1e2f888d4794ac98c5a38c34af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:53 +0000
Subject: [PATCH 21/31] fix: parse_hexstring failed on DLL frames, which have
 no message type

---
 tools/parse_hexstring.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tools/parse_hexstring.py b/tools/parse_hexstring.py
index e95ac94..e26926a 100644
--- a/tools/parse_hexstring.py
+++ b/tools/parse_hexstring.py
@@ -55,7 +55,11 @@ if args.type == "systemfile":
   print(file_type.parse(ConstBitStream(data)))
   exit(0)
 
-msgtype, cmds, info = parser.parse(data)
+if args.type == "serial":
+  msgtype, cmds, info = parser.parse(data)
+else:
+  cmds, info = parser.parse(data)
+
 for cmd in cmds:
   print cmd
 
-- 
2.43.0


From ef84adb8fe688a6028ffe6dce304d92a52b85d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:27 +0000
Subject: [PATCH 22/31] fix: Modem swallowed untagged responses while no
 synchronous command was executing

---
 modem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modem/modem.py b/modem/modem.py
index 32b2f5c..21c19ae 100755
--- a/modem/modem.py
+++ b/modem/modem.py
@@ -218,7 +218,7 @@ class Modem:
           self.log.warning("Parser error: {}".format(error))
         cmd_cnt = 0
         for cmd in cmds:
-          if not self.skip_alp_parsing and hasattr(cmd, 'tag_id') and self._sync_execution_tag_id == cmd.tag_id and message_types[cmd_cnt] <= MessageType.PING_RESPONSE:
+          if not self.skip_alp_parsing and hasattr(cmd, 'tag_id') and cmd.tag_id is not None and self._sync_execution_tag_id == cmd.tag_id and message_types[cmd_cnt] <= MessageType.PING_RESPONSE:
             self.log.info("Received response for sync execution")
             self._sync_execution_response_cmds.append(cmd)
             if cmd.execution_completed:
-- 
2.43.0


From 7275320678a31d3025c8a929860d768d93a7f99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:27 +0000
Subject: [PATCH 23/31] fix: Modem assigned frame counters outside the lock
 which orders the frames

---
 modem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modem/modem.py b/modem/modem.py
index 21c19ae..10eb711 100755
--- a/modem/modem.py
+++ b/modem/modem.py
@@ -148,7 +148,6 @@ class Modem:
                     "executing async instead ")
       timeout_seconds = 0
 
-    data = self.parser.build_serial_frame(alp_command)
     self._sync_execution_response_cmds = []
     self._sync_execution_tag_id = None
     self._sync_execution_completed = False
@@ -156,6 +155,7 @@ class Modem:
       assert self._sync_execution_tag_id is None
       self._sync_execution_tag_id = alp_command.tag_id
     with self.lock:
+      data = self.parser.build_serial_frame(alp_command)
       self.dev.write(data)
       self.dev.flush()
     self.log.info("Sending command of size %s" % len(data))
-- 
2.43.0


From 9019655fb3e301b224343b31af228ec901f60922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:27 +0000
Subject: [PATCH 24/31] fix: Modem async commands aborted a running sync
 command, late responses were lost

---
 modem/modem.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/modem/modem.py b/modem/modem.py
index 10eb711..963ceae 100755
--- a/modem/modem.py
+++ b/modem/modem.py
@@ -148,16 +148,19 @@ class Modem:
                     "executing async instead ")
       timeout_seconds = 0
 
-    self._sync_execution_response_cmds = []
-    self._sync_execution_tag_id = None
-    self._sync_execution_completed = False
     if(timeout_seconds > 0):
-      assert self._sync_execution_tag_id is None
+      self._sync_execution_response_cmds = []
+      self._sync_execution_completed = False
       self._sync_execution_tag_id = alp_command.tag_id
-    with self.lock:
-      data = self.parser.build_serial_frame(alp_command)
-      self.dev.write(data)
-      self.dev.flush()
+    try:
+      with self.lock:
+        data = self.parser.build_serial_frame(alp_command)
+        self.dev.write(data)
+        self.dev.flush()
+    except Exception:
+      if timeout_seconds > 0:
+        self._sync_execution_tag_id = None # not sent, so there is nothing to wait for
+      raise
     self.log.info("Sending command of size %s" % len(data))
     self.log.debug("> " + " ".join(map(lambda b: format(b, "02x"), data)))
     if timeout_seconds == 0:
@@ -168,6 +171,7 @@ class Modem:
     while not self._sync_execution_completed and (datetime.now() - start_time).total_seconds() < timeout_seconds:
       time.sleep(0.05)
 
+    self._sync_execution_tag_id = None # from now on responses with this tag are unsolicited
     if not self._sync_execution_completed:
       self.log.info("Command timeout (tag {})".format(alp_command.tag_id))
       return []
-- 
2.43.0


From 55e140b0c2bce43de44d52aabbba60c7d515024a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:58 +0000
Subject: [PATCH 25/31] fix: Modem reader died on a SerialException instead of
 reconnecting

---
 modem/modem.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/modem/modem.py b/modem/modem.py
index 963ceae..2136b43 100755
--- a/modem/modem.py
+++ b/modem/modem.py
@@ -69,6 +69,13 @@ class Modem:
     self.unsolicited_response_received_callback = unsolicited_response_received_callback
     self.rebooted_callback = rebooted_callback
     self.connected = False
+    self._connect_serial_modem()
+
+    self.dev.flush() # ignore possible buffered data
+
+    self.start_reading()
+
+  def _connect_serial_modem(self):
     self.dev = serial.Serial(
       port     = self.config["device"],
       baudrate = self.config["baudrate"],
@@ -82,10 +89,6 @@ class Modem:
       exclusive = True,
     )
 
-    self.dev.flush() # ignore possible buffered data
-
-    self.start_reading()
-
   def connect(self, check_alive=True):
     if self.connected:
       return
@@ -210,9 +213,13 @@ class Modem:
         data_received = self.dev.read()
       except serial.SerialException:
         self.log.warning("SerialException received, trying to reconnect")
+        data_received = bytearray()
         self.dev.close()
         time.sleep(5)
-        self._connect_serial_modem()
+        try:
+          self._connect_serial_modem()
+        except serial.SerialException:
+          self.log.warning("Reconnecting failed, trying again")
 
       if len(data_received) > 0:
         # self.log.debug("< " + " ".join(map(lambda b: format(b, "02x"), bytearray(data_received))))
-- 
2.43.0


From 2253c8789db4e3b3f0780fd44c7d67807d19fb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 26/31] fix: ReturnFileData parsed a part of a system file as
 if it was the complete file

---
 d7a/alp/operations/responses.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/d7a/alp/operations/responses.py b/d7a/alp/operations/responses.py
index d09d806..2a61318 100644
--- a/d7a/alp/operations/responses.py
+++ b/d7a/alp/operations/responses.py
@@ -46,6 +46,9 @@ class ReturnFileData(Operation):
 
   def try_parse_system_file(self):
     # when reading a known system files we store the parsed data and filename
+    if self.operand.offset.offset.value != 0:
+      return # only a part of the file
+
     try:
       systemfile_type = SystemFiles().files[SystemFileIds(self.operand.offset.id)]
     except:
-- 
2.43.0


From dd5a07916e720f47f67b52808bfd72d423ccb7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:56 +0000
Subject: [PATCH 27/31] fix: file data operations without data were serialized
 without their operand

---
 d7a/alp/operations/operation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/d7a/alp/operations/operation.py b/d7a/alp/operations/operation.py
index ec450f2..5132765 100644
--- a/d7a/alp/operations/operation.py
+++ b/d7a/alp/operations/operation.py
@@ -46,7 +46,7 @@ class Operation(Validatable):
     self.operand = operand
 
   def __iter__(self):
-    if self.operand:
+    if self.operand is not None:
       for byte in self.operand: yield byte
 
   def __str__(self):
-- 
2.43.0


From 5f790e94195f3b1771095b27dc87463af36cebce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:24 +0000
Subject: [PATCH 28/31] fix: indirect forward actions could be built with an
 overload flag that contradicts their operand

---
 d7a/alp/indirect_forward_action.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/d7a/alp/indirect_forward_action.py b/d7a/alp/indirect_forward_action.py
index 112c80b..9946e07 100644
--- a/d7a/alp/indirect_forward_action.py
+++ b/d7a/alp/indirect_forward_action.py
@@ -41,6 +41,8 @@ class IndirectForwardAction(Action):
     self.overload = overload
     self.resp = resp
     super(IndirectForwardAction, self).__init__(operation)
+    if overload != (self.operand.interface_configuration_overload is not None):
+      raise ValueError("an interface configuration overload is required if, and only if, overload is set")
 
   def __iter__(self):
     byte = 0
-- 
2.43.0


From f2b1ea0c72b6ebc8ec87624406edfffe7ff86663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:33 +0000
Subject: [PATCH 29/31] fix: comparing different file properties or channel
 headers raised TypeError when enum values can not be ordered

---
 d7a/fs/file_properties.py | 4 +++-
 d7a/phy/channel_header.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/d7a/fs/file_properties.py b/d7a/fs/file_properties.py
index 4e621eb..9494363 100644
--- a/d7a/fs/file_properties.py
+++ b/d7a/fs/file_properties.py
@@ -78,7 +78,9 @@ class FileProperties(Validatable):
 
   def __eq__(self, other):
     if isinstance(other, FileProperties):
-      return self.__dict__ == other.__dict__
+      return (self.act_enabled == other.act_enabled and
+              self.act_condition == other.act_condition and
+              self.storage_class == other.storage_class)
 
     return False
 
diff --git a/d7a/phy/channel_header.py b/d7a/phy/channel_header.py
index cc2be62..231dc09 100644
--- a/d7a/phy/channel_header.py
+++ b/d7a/phy/channel_header.py
@@ -123,7 +123,9 @@ class ChannelHeader(Validatable):
 
   def __eq__(self, other):
     if type(other) is type(self):
-      return self.__dict__ == other.__dict__
+      return (self.channel_coding == other.channel_coding and
+              self.channel_class == other.channel_class and
+              self.channel_band == other.channel_band)
     return False
 
   def __ne__(self, other):
-- 
2.43.0


From 1c20778baf452b327c79a20064022b127e51fd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:24 +0000
Subject: [PATCH 30/31] fix: a response arriving while its synchronous command
 times out could be lost or returned by the next command

---
 modem/modem.py | 48 +++++++++++++++++++++++++++++++-----------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/modem/modem.py b/modem/modem.py
index 2136b43..4dc5575 100755
--- a/modem/modem.py
+++ b/modem/modem.py
@@ -57,6 +57,7 @@ class Modem:
       "baudrate" : baudrate
     }
     self.lock=threading.Lock()
+    self._sync_execution_lock = threading.Lock() # guards the _sync_execution_* state, which is shared with the read thread
     self.uid = None
     self.firmware_version = None
     self.skip_alp_parsing = skip_alp_parsing
@@ -152,9 +153,10 @@ class Modem:
       timeout_seconds = 0
 
     if(timeout_seconds > 0):
-      self._sync_execution_response_cmds = []
-      self._sync_execution_completed = False
-      self._sync_execution_tag_id = alp_command.tag_id
+      with self._sync_execution_lock:
+        self._sync_execution_response_cmds = []
+        self._sync_execution_completed = False
+        self._sync_execution_tag_id = alp_command.tag_id
     try:
       with self.lock:
         data = self.parser.build_serial_frame(alp_command)
@@ -162,7 +164,8 @@ class Modem:
         self.dev.flush()
     except Exception:
       if timeout_seconds > 0:
-        self._sync_execution_tag_id = None # not sent, so there is nothing to wait for
+        with self._sync_execution_lock:
+          self._sync_execution_tag_id = None # not sent, so there is nothing to wait for
       raise
     self.log.info("Sending command of size %s" % len(data))
     self.log.debug("> " + " ".join(map(lambda b: format(b, "02x"), data)))
@@ -174,12 +177,13 @@ class Modem:
     while not self._sync_execution_completed and (datetime.now() - start_time).total_seconds() < timeout_seconds:
       time.sleep(0.05)
 
-    self._sync_execution_tag_id = None # from now on responses with this tag are unsolicited
-    if not self._sync_execution_completed:
-      self.log.info("Command timeout (tag {})".format(alp_command.tag_id))
-      return []
+    with self._sync_execution_lock:
+      self._sync_execution_tag_id = None # from now on responses with this tag are unsolicited
+      if not self._sync_execution_completed:
+        self.log.info("Command timeout (tag {})".format(alp_command.tag_id))
+        return []
 
-    return self._sync_execution_response_cmds
+      return self._sync_execution_response_cmds
 
 
   def start_reading(self):
@@ -205,6 +209,23 @@ class Modem:
   def clear_rebooted_received(self):
     self._rebooted_received = []
 
+  def _take_sync_execution_response(self, cmd):
+    if self.skip_alp_parsing or not hasattr(cmd, 'tag_id') or cmd.tag_id is None:
+      return False
+
+    with self._sync_execution_lock:
+      if self._sync_execution_tag_id != cmd.tag_id:
+        return False
+
+      self._sync_execution_response_cmds.append(cmd)
+      if cmd.execution_completed:
+        self.log.info("cmd with tag {} done".format(cmd.tag_id))
+        self._sync_execution_completed = True
+      else:
+        self.log.info("cmd with tag {} not done yet, expecting more responses".format(cmd.tag_id))
+
+      return True
+
   def _read_async(self):
     self.log.info("starting read thread")
     data_received = bytearray()
@@ -229,15 +250,8 @@ class Modem:
           self.log.warning("Parser error: {}".format(error))
         cmd_cnt = 0
         for cmd in cmds:
-          if not self.skip_alp_parsing and hasattr(cmd, 'tag_id') and cmd.tag_id is not None and self._sync_execution_tag_id == cmd.tag_id and message_types[cmd_cnt] <= MessageType.PING_RESPONSE:
+          if message_types[cmd_cnt] <= MessageType.PING_RESPONSE and self._take_sync_execution_response(cmd):
             self.log.info("Received response for sync execution")
-            self._sync_execution_response_cmds.append(cmd)
-            if cmd.execution_completed:
-              self.log.info("cmd with tag {} done".format(cmd.tag_id))
-              self._sync_execution_completed = True
-            else:
-              self.log.info("cmd with tag {} not done yet, expecting more responses".format(cmd.tag_id))
-
           elif self.unsolicited_response_received_callback != None and self.connected and message_types[cmd_cnt] <= MessageType.PING_RESPONSE: # skip responses until connected
             self.unsolicited_response_received_callback(cmd)
           elif message_types[cmd_cnt] == MessageType.REBOOTED:
-- 
2.43.0


From 7381412593b80170ccfcd3b993f23ad5674bc643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:37 +0000
Subject: [PATCH 31/31] fix: connecting considered only the first response
 command, and identity read by a previous failed attempt

---
 modem/modem.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/modem/modem.py b/modem/modem.py
index 4dc5575..515bec8 100755
--- a/modem/modem.py
+++ b/modem/modem.py
@@ -122,14 +122,19 @@ class Modem:
       self.log.warning("Timed out reading node information")
       return False
 
-    for action in resp_cmd[0].actions:
-      if type(action) is RegularAction and type(action.operation) is ReturnFileData:
+    uid = None
+    firmware_version = None
+    for cmd in resp_cmd: # the response can consist of multiple commands
+      for action in cmd.actions:
+        if type(action) is RegularAction and type(action.operation) is ReturnFileData:
           if action.operand.offset.id == SystemFileIds.UID.value:
-            self.uid = '{:x}'.format(struct.unpack(">Q", str(bytearray(action.operand.data)))[0])
+            uid = '{:x}'.format(struct.unpack(">Q", str(bytearray(action.operand.data)))[0])
           if action.operand.offset.id == SystemFileIds.FIRMWARE_VERSION.value:
-            self.firmware_version = FirmwareVersionFile.parse(ConstBitStream(bytearray(action.operand.data)))
+            firmware_version = FirmwareVersionFile.parse(ConstBitStream(bytearray(action.operand.data)))
 
-    if self.uid and self.firmware_version:
+    if uid and firmware_version:
+      self.uid = uid
+      self.firmware_version = firmware_version
       self.connected = True
 
 
-- 
2.43.0

