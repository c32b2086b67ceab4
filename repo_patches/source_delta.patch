From b8fc559e8103a3c7ffa4f8a93773569bdab441cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:58 +0000
Subject: [PATCH 01/22] fix: decode extended capabilities from their own
 offset, not from the start of the region

---
 src/extended_capabilities.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/extended_capabilities.rs b/src/extended_capabilities.rs
index 2d2f0fe..ea68ff3 100644
--- a/src/extended_capabilities.rs
+++ b/src/extended_capabilities.rs
@@ -282,6 +282,8 @@ fn parse_ecap<'a>(
     let (id, version, next_cap_offset) = P3::<_, 16, 4, 12>(*dword).lsb_into();
     *next_capability_offset = next_cap_offset;
 
+    // Capability bytes including Extended Capability Header
+    let ecap_bytes = &bytes[ecs_offset..];
     let ecap_data = &bytes[ecap_data_offset..];
 
     use ExtendedCapabilityKind as Kind;
@@ -316,7 +318,7 @@ fn parse_ecap<'a>(
             .map(Kind::RootComplexEventCollectorEndpointAssociation)
             .context(DataSnafu { offset })?,
         // MFVC use data with PCI Express Extended Capability Header for simpler calculations
-        0x0008 => bytes
+        0x0008 => ecap_bytes
             .try_into()
             .map(Kind::MultifunctionVirtualChannel)
             .context(MultifunctionVirtualChannelSnafu { offset })?,
@@ -324,7 +326,7 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::VirtualChannelMfvcPresent)
             .context(DataSnafu { offset })?,
-        0x000A => bytes
+        0x000A => ecap_bytes
             .try_into()
             .map(Kind::RootComplexRegisterBlockHeader)
             .context(DataSnafu { offset })?,
@@ -332,7 +334,7 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::VendorSpecificExtendedCapability)
             .context(DataSnafu { offset })?,
-        0x000C => bytes
+        0x000C => ecap_bytes
             .try_into()
             .map(Kind::ConfigurationAccessCorrelation)
             .context(DataSnafu { offset })?,
@@ -353,7 +355,7 @@ fn parse_ecap<'a>(
             .map(Kind::SingleRootIoVirtualization)
             .context(DataSnafu { offset })?,
         0x0011 => Kind::MultiRootIoVirtualization(MultiRootIoVirtualization),
-        0x0012 => bytes
+        0x0012 => ecap_bytes
             .try_into()
             .map(Kind::Multicast)
             .context(DataSnafu { offset })?,
@@ -362,11 +364,11 @@ fn parse_ecap<'a>(
             .map(Kind::PageRequestInterface)
             .context(DataSnafu { offset })?,
         0x0014 => Kind::ReservedForAmd(ReservedForAmd),
-        0x0015 => bytes
+        0x0015 => ecap_bytes
             .try_into()
             .map(Kind::ResizableBar)
             .context(ResizableBarSnafu { offset })?,
-        0x0016 => bytes
+        0x0016 => ecap_bytes
             .try_into()
             .map(Kind::DynamicPowerAllocation)
             .context(DynamicPowerAllocationSnafu { offset })?,
@@ -382,7 +384,7 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::SecondaryPciExpress)
             .context(DataSnafu { offset })?,
-        0x001A => bytes
+        0x001A => ecap_bytes
             .try_into()
             .map(Kind::ProtocolMultiplexing)
             .context(ProtocolMultiplexingSnafu { offset })?,
@@ -390,7 +392,7 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::ProcessAddressSpaceId)
             .context(DataSnafu { offset })?,
-        0x001C => bytes
+        0x001C => ecap_bytes
             .try_into()
             .map(Kind::LnRequester)
             .context(DataSnafu { offset })?,
@@ -406,23 +408,23 @@ fn parse_ecap<'a>(
             .try_into()
             .map(Kind::PrecisionTimeMeasurement)
             .context(DataSnafu { offset })?,
-        0x0020 => bytes
+        0x0020 => ecap_bytes
             .try_into()
             .map(Kind::PciExpressOverMphy)
             .context(DataSnafu { offset })?,
-        0x0021 => bytes
+        0x0021 => ecap_bytes
             .try_into()
             .map(Kind::FrsQueuing)
             .context(DataSnafu { offset })?,
-        0x0022 => bytes
+        0x0022 => ecap_bytes
             .try_into()
             .map(Kind::ReadinessTimeReporting)
             .context(DataSnafu { offset })?,
-        0x0023 => bytes
+        0x0023 => ecap_bytes
             .try_into()
             .map(Kind::DesignatedVendorSpecificExtendedCapability)
             .context(DesignatedVendorSpecificExtendedCapabilitySnafu { offset })?,
-        0x0024 => bytes
+        0x0024 => ecap_bytes
             .try_into()
             .map(Kind::VfResizableBar)
             .context(VfResizableBarSnafu { offset })?,
-- 
2.43.0


From 74ff667e0545427ddfbe905da52b2f3738d21859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:58 +0000
Subject: [PATCH 02/22] fix: stop the capability walk after an unavailable
 header instead of repeating the error

---
 src/capabilities.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/capabilities.rs b/src/capabilities.rs
index cb57c93..814cff9 100644
--- a/src/capabilities.rs
+++ b/src/capabilities.rs
@@ -369,6 +369,7 @@ fn parse_cap<'a>(bytes: &'a [u8], pointer: &mut u8, header: &'a Header) -> Capab
         *pointer = *next;
         (*id, rest)
     } else {
+        *pointer = 0;
         return Err(CapabilityError::Header { ptr });
     };
     use CapabilityKind as Kind;
-- 
2.43.0


From 2847336cb1f13961feead27c88a51c9da39f6571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:01 +0000
Subject: [PATCH 03/22] fix: mask the reserved low bits of capability pointers

---
 src/capabilities.rs          | 6 ++++--
 src/extended_capabilities.rs | 5 +++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/capabilities.rs b/src/capabilities.rs
index 814cff9..6764205 100644
--- a/src/capabilities.rs
+++ b/src/capabilities.rs
@@ -345,7 +345,8 @@ pub struct Capabilities<'a> {
 }
 impl<'a> Capabilities<'a> {
     pub fn new(data: &'a [u8], header: &'a Header) -> Self {
-        Self { data, header, pointer: header.capabilities_pointer }
+        // The two low bits are reserved and must be masked
+        Self { data, header, pointer: header.capabilities_pointer & !0b11 }
     }
 }
 impl<'a> Iterator for Capabilities<'a> {
@@ -366,7 +367,8 @@ fn parse_cap<'a>(bytes: &'a [u8], pointer: &mut u8, header: &'a Header) -> Capab
         CapabilityError::Pointer
     })?;
     let (id, cap_data) = if let Some([id, next, rest @ ..]) = bytes.get(offset..) {
-        *pointer = *next;
+        // The two low bits are reserved and must be masked
+        *pointer = *next & !0b11;
         (*id, rest)
     } else {
         *pointer = 0;
diff --git a/src/extended_capabilities.rs b/src/extended_capabilities.rs
index ea68ff3..b171b33 100644
--- a/src/extended_capabilities.rs
+++ b/src/extended_capabilities.rs
@@ -279,8 +279,9 @@ fn parse_ecap<'a>(
     if *dword == 0 {
         return Err(ExtendedCapabilityError::EmptyHeader { offset });
     }
-    let (id, version, next_cap_offset) = P3::<_, 16, 4, 12>(*dword).lsb_into();
-    *next_capability_offset = next_cap_offset;
+    let (id, version, next_cap_offset): (u16, u8, u16) = P3::<_, 16, 4, 12>(*dword).lsb_into();
+    // The two low bits are reserved and must be masked
+    *next_capability_offset = next_cap_offset & !0b11;
 
     // Capability bytes including Extended Capability Header
     let ecap_bytes = &bytes[ecs_offset..];
-- 
2.43.0


From 574aa1baa823347c05301b8c0efbfc0744b386dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:45 +0000
Subject: [PATCH 04/22] fix: end the capability walks when links form a cycle

---
 src/capabilities.rs          | 14 +++++++++++---
 src/extended_capabilities.rs | 11 +++++++++--
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/capabilities.rs b/src/capabilities.rs
index 6764205..dd9e8a5 100644
--- a/src/capabilities.rs
+++ b/src/capabilities.rs
@@ -342,19 +342,27 @@ pub struct Capabilities<'a> {
     data: &'a [u8],
     header: &'a Header,
     pointer: u8,
+    /// Visited double words of the configuration space, one bit each
+    visited: u64,
 }
 impl<'a> Capabilities<'a> {
     pub fn new(data: &'a [u8], header: &'a Header) -> Self {
         // The two low bits are reserved and must be masked
-        Self { data, header, pointer: header.capabilities_pointer & !0b11 }
+        Self { data, header, pointer: header.capabilities_pointer & !0b11, visited: 0 }
     }
 }
 impl<'a> Iterator for Capabilities<'a> {
     type Item = CapabilityResult<'a>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        // Stop iterating if next pointer is null
-        (self.pointer != 0).then(|| parse_cap(self.data, &mut self.pointer, self.header))
+        // Stop iterating if next pointer is null or leads back to a visited structure
+        let slot = 1u64 << (self.pointer / 4);
+        if self.pointer == 0 || self.visited & slot != 0 {
+            self.pointer = 0;
+            return None;
+        }
+        self.visited |= slot;
+        Some(parse_cap(self.data, &mut self.pointer, self.header))
     }
 }
 
diff --git a/src/extended_capabilities.rs b/src/extended_capabilities.rs
index b171b33..21f5b60 100644
--- a/src/extended_capabilities.rs
+++ b/src/extended_capabilities.rs
@@ -186,19 +186,26 @@ pub struct ExtendedCapabilities<'a> {
     ecs: &'a [u8],
     /// PCI Configuration Space offset
     next_capability_offset: u16,
+    /// Visited double words of the configuration space, one bit each
+    visited: [u64; 16],
 }
 impl<'a> ExtendedCapabilities<'a> {
     pub fn new(ecs: &'a [u8]) -> Self {
-        Self { ecs, next_capability_offset: ECS_OFFSET as u16 }
+        Self { ecs, next_capability_offset: ECS_OFFSET as u16, visited: [0; 16] }
     }
 }
 impl<'a> Iterator for ExtendedCapabilities<'a> {
     type Item = ExtendedCapabilityResult<'a>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.next_capability_offset == 0 {
+        // Stop iterating if next offset is null or leads back to a visited structure
+        let slot = self.next_capability_offset as usize / 4;
+        let visited = &mut self.visited[slot / 64];
+        if self.next_capability_offset == 0 || *visited & (1 << (slot % 64)) != 0 {
+            self.next_capability_offset = 0;
             return None;
         }
+        *visited |= 1 << (slot % 64);
         match parse_ecap(self.ecs, &mut self.next_capability_offset) {
             Err(ExtendedCapabilityError::EmptyHeader { .. }) => None,
             v => Some(v),
-- 
2.43.0


From 514a05f923c88f34aa19d72f437d03305f33f52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:42 +0000
Subject: [PATCH 05/22] fix: report a missing second double word of a Type 1
 Enhanced Allocation as such

---
 src/capabilities/enhanced_allocation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capabilities/enhanced_allocation.rs b/src/capabilities/enhanced_allocation.rs
index 92ed617..bbe42ea 100644
--- a/src/capabilities/enhanced_allocation.rs
+++ b/src/capabilities/enhanced_allocation.rs
@@ -88,7 +88,7 @@ impl<'a> EnhancedAllocation<'a> {
                         entries: EnhancedAllocationEntries::new(slice, num_entries),
                     })
                 } else {
-                    Err(EnhancedAllocationError::NumEntries)
+                    Err(EnhancedAllocationError::Type1SecondDw)
                 }
             } else {
                 Ok(Self {
-- 
2.43.0


From 63fdafab7d9329698579b73c16f18be664356555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:42 +0000
Subject: [PATCH 06/22] fix: PCI-X maximum cumulative read size in bytes is 128
 bytes per ADQ

---
 src/capabilities/pci_x.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capabilities/pci_x.rs b/src/capabilities/pci_x.rs
index c5cac1b..0d8db82 100644
--- a/src/capabilities/pci_x.rs
+++ b/src/capabilities/pci_x.rs
@@ -398,7 +398,7 @@ impl MaximumCumulativeReadSize {
         1 << (self.0 + 3)
     }
     pub fn bytes(&self) -> usize {
-        1 << self.0
+        self.adqs() * 128
     }
 }
 
-- 
2.43.0


From c27675b521bc0f19a69b710b57093d0813cdb4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:42 +0000
Subject: [PATCH 07/22] fix: encode every CardBus I/O access address range

---
 src/header.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/header.rs b/src/header.rs
index 86721a8..9014b3d 100644
--- a/src/header.rs
+++ b/src/header.rs
@@ -760,18 +760,27 @@ impl From<IoAccessAddressRange > for [[u16;2]; 2] {
     fn from(data: IoAccessAddressRange) -> Self {
         match data {
             IoAccessAddressRange::Addr16Bit { base, limit } => {
-                [[base & !0b11, 0], [limit, 0]]
+                [[base & !0b11, 0], [limit & !0b11, 0]]
             },
             IoAccessAddressRange::Addr32Bit { base, limit } => {
                 let base = base.to_le_bytes();
-                let base_upper = u16::from_le_bytes([base[0] & !0b11, base[1]]);
+                let base_upper = u16::from_le_bytes([base[0] & !0b11 | 0b01, base[1]]);
                 let base_lower = u16::from_le_bytes([base[2], base[3]]);
                 let limit = limit.to_le_bytes();
-                let limit_upper = u16::from_le_bytes([limit[0], limit[1]]);
+                let limit_upper = u16::from_le_bytes([limit[0] & !0b11, limit[1]]);
                 let limit_lower = u16::from_le_bytes([limit[2], limit[3]]);
                 [[base_upper, base_lower], [limit_upper, limit_lower]]
             },
-            _ => unreachable!(),
+            IoAccessAddressRange::Unknown {
+                io_address_capability,
+                base_lower,
+                base_upper,
+                limit_lower,
+                limit_upper,
+            } => [
+                [base_lower & !0b11 | (io_address_capability & 0b11) as u16, base_upper],
+                [limit_lower & !0b11, limit_upper],
+            ],
         }
     }
 }
-- 
2.43.0


From 1e5b96892a9c20a0366a23be966f7117fba1a063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:42 +0000
Subject: [PATCH 08/22] fix: collect every kind of base address back into its
 register

---
 src/header/bar.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/header/bar.rs b/src/header/bar.rs
index 3bdc60f..a76cda3 100644
--- a/src/header/bar.rs
+++ b/src/header/bar.rs
@@ -98,12 +98,19 @@ impl<const N: usize> FromIterator<BaseAddress> for [u32; N] {
                 },
                 BaseAddressType::MemorySpace64 { prefetchable, base_address, } => {
                     dwords[i] = (base_address as u32) & !0b1111 | 0b100 | ((prefetchable as u32) << 3);
-                    dwords[i + 1] = (base_address >> 32) as u32;
+                    if let Some(upper) = dwords.get_mut(i + 1) {
+                        *upper = (base_address >> 32) as u32;
+                    }
                 },
                 BaseAddressType::IoSpace { base_address, } => {
                     dwords[i] = base_address & !0b11 | 0b01;
                 },
-                _ => (),
+                BaseAddressType::MemorySpaceReserved { prefetchable, base_address, } => {
+                    dwords[i] = base_address & !0b1111 | 0b110 | ((prefetchable as u32) << 3);
+                },
+                BaseAddressType::MemorySpace64Broken { prefetchable, } => {
+                    dwords[i] = 0b100 | ((prefetchable as u32) << 3);
+                },
             }
 
         }
-- 
2.43.0


From 90035a3e987fdb5dc64cd17d8a1fa174d76af92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:42 +0000
Subject: [PATCH 09/22] fix: read the TLP prefix log at its offset 38h

---
 src/extended_capabilities/advanced_error_reporting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/advanced_error_reporting.rs b/src/extended_capabilities/advanced_error_reporting.rs
index 6322fe8..e09f010 100644
--- a/src/extended_capabilities/advanced_error_reporting.rs
+++ b/src/extended_capabilities/advanced_error_reporting.rs
@@ -267,7 +267,7 @@ impl TryFrom<&[u8]> for AdvancedErrorReporting {
             } = P2(slice)
                 .try_into()
                 .map_err(|_| AdvancedErrorReportingError::TlpPrefixLog)?;
-            let _: [u8; Self::RP_AND_RCEC_SIZE] = _rp_and_rcec;
+            let _: [u8; Self::RP_AND_RCEC_SIZE - Self::COMMON_SIZE] = _rp_and_rcec;
             let Le(tlp_prefix_log) = From::<[u8; Self::TLP_PREFIX_LOG_SIZE]>::from(tlp_prefix_log);
             Some(TlpPrefixLog(tlp_prefix_log))
         } else {
-- 
2.43.0


From 20416030b1eac550fd1e5f8f7cac11b441e9143e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:42 +0000
Subject: [PATCH 10/22] fix: the egress control vector size has eight bits

---
 src/extended_capabilities/access_control_services.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/access_control_services.rs b/src/extended_capabilities/access_control_services.rs
index d7bfed8..a777e3e 100644
--- a/src/extended_capabilities/access_control_services.rs
+++ b/src/extended_capabilities/access_control_services.rs
@@ -124,7 +124,7 @@ impl From<u16> for AcsCapability {
             acs_direct_translated_p2p,
             (),
             egress_control_vector_size,
-        )) = P9::<_, 1, 1, 1, 1, 1, 1, 1, 1, 7>(word).into();
+        )) = P9::<_, 1, 1, 1, 1, 1, 1, 1, 1, 8>(word).into();
         Self {
             acs_source_validation,
             acs_translation_blocking,
-- 
2.43.0


From 3ca2c53013d225b299f9100617743abd17d5183f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:42 +0000
Subject: [PATCH 11/22] fix: yield every bit of the egress control vector

---
 src/extended_capabilities/access_control_services.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/extended_capabilities/access_control_services.rs b/src/extended_capabilities/access_control_services.rs
index a777e3e..c1c8428 100644
--- a/src/extended_capabilities/access_control_services.rs
+++ b/src/extended_capabilities/access_control_services.rs
@@ -64,8 +64,12 @@ pub struct AccessControlServices<'a> {
 
 impl<'a> AccessControlServices<'a> {
     pub fn egress_control_vectors(&self) -> EgressControlVectors<'a> {
-        let size = self.acs_capability.egress_control_vector_size as usize;
-        let end = size / (u32::BITS as usize) * ECV_BYTES;
+        let size = match self.acs_capability.egress_control_vector_size {
+            // 00h encodes 256 bits
+            0 if self.acs_capability.acs_p2p_egress_control => 256,
+            v => v as usize,
+        };
+        let end = size.div_ceil(u32::BITS as usize) * ECV_BYTES;
         EgressControlVectors::new(self.data.get(..end).unwrap_or_default(), size)
     }
 }
-- 
2.43.0


From 439984429192c02611e4c2231da2d955f669cab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:07 +0000
Subject: [PATCH 12/22] fix: encode the latency scale at bit 10 of the LTR
 registers

---
 src/extended_capabilities/l1_pm_substates.rs             | 4 +++-
 src/extended_capabilities/latency_tolerance_reporting.rs | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/extended_capabilities/l1_pm_substates.rs b/src/extended_capabilities/l1_pm_substates.rs
index c724ba5..7fd2298 100644
--- a/src/extended_capabilities/l1_pm_substates.rs
+++ b/src/extended_capabilities/l1_pm_substates.rs
@@ -255,7 +255,9 @@ impl From<L1PmSubstatesControl1> for u32 {
             | u8::from(data.pci_pm_l1_1_enable) << 1
             | u8::from(data.aspm_l1_2_enable) << 2
             | u8::from(data.aspm_l1_1_enable) << 3;
-        let [b2, b3] = u16::from(data.ltr_l1_2_threshold).to_le_bytes();
+        // Scale resides in the three most significant bits
+        let MaxLatency { value, scale } = data.ltr_l1_2_threshold;
+        let [b2, b3] = ((scale as u16) << 13 | value).to_le_bytes();
         u32::from_le_bytes([b0, data.common_mode_restore_time, b2, b3])
     }
 }
diff --git a/src/extended_capabilities/latency_tolerance_reporting.rs b/src/extended_capabilities/latency_tolerance_reporting.rs
index 595ab9c..47277f0 100644
--- a/src/extended_capabilities/latency_tolerance_reporting.rs
+++ b/src/extended_capabilities/latency_tolerance_reporting.rs
@@ -86,6 +86,6 @@ impl From<u16> for MaxLatency {
 
 impl From<MaxLatency> for u16 {
     fn from(data: MaxLatency) -> Self {
-        (data.scale as u16) << 13 | data.value
+        (data.scale as u16) << 10 | data.value
     }
 }
-- 
2.43.0


From 8b95e7f8063129f081d3ef5693f47abf6f4e8204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:07 +0000
Subject: [PATCH 13/22] fix: do not panic on a truncated Lane Equalization
 Control register

---
 src/extended_capabilities/secondary_pci_express.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/secondary_pci_express.rs b/src/extended_capabilities/secondary_pci_express.rs
index 0e428b2..4f43d42 100644
--- a/src/extended_capabilities/secondary_pci_express.rs
+++ b/src/extended_capabilities/secondary_pci_express.rs
@@ -79,7 +79,7 @@ impl<'a> SecondaryPciExpress<'a> {
     ) -> EqualizationControlLanes<'a> {
         // One Lane Equalization Control 2 bytes width
         let end = (u8::from(link_width) as usize) * 2;
-        EqualizationControlLanes::new(&self.ecl_data[..end])
+        EqualizationControlLanes::new(self.ecl_data.get(..end).unwrap_or(self.ecl_data))
     }
 }
 impl<'a> TryFrom<&'a [u8]> for SecondaryPciExpress<'a> {
-- 
2.43.0


From 6fae9edb17ec566cf4ed4893a5cc2aad4a4732bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:07 +0000
Subject: [PATCH 14/22] fix: do not panic on an absent or truncated arbitration
 table

---
 src/extended_capabilities/virtual_channel.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/extended_capabilities/virtual_channel.rs b/src/extended_capabilities/virtual_channel.rs
index abf4c87..3d29dbc 100644
--- a/src/extended_capabilities/virtual_channel.rs
+++ b/src/extended_capabilities/virtual_channel.rs
@@ -118,10 +118,14 @@ impl<'a> VirtualChannel<'a> {
             .port_vc_control
             .vc_arbitration_select
             .vc_arbitration_table_length();
-        let start = offset as usize * DQWORD - ECH_BYTES;
+        // Zero offset means that the table is not present
+        let start = (offset as usize * DQWORD).saturating_sub(ECH_BYTES);
         // VC Arbitration Table entry length is 4 bits, so there are 2 entries in one byte
         let end = start + entries_number / 2;
-        let data = &self.data[start..end];
+        let data = match offset {
+            0 => &[],
+            _ => self.data.get(start..end).unwrap_or_default(),
+        };
         VcArbitrationTable::new(data)
     }
     pub fn port_arbitration_table(
@@ -137,9 +141,13 @@ impl<'a> VirtualChannel<'a> {
             .vc_resource_control
             .port_arbitration_select
             .port_arbitration_table_length();
-        let start = offset as usize * DQWORD - ECH_BYTES;
+        // Zero offset means that the table is not present
+        let start = (offset as usize * DQWORD).saturating_sub(ECH_BYTES);
         let end = start + entry_size_bits * entries_number / 8;
-        let data = &self.data[start..end];
+        let data = match offset {
+            0 => &[],
+            _ => self.data.get(start..end).unwrap_or_default(),
+        };
         PortArbitrationTable::new(data, entry_size_bits)
     }
 }
-- 
2.43.0


From 0034724863c0acd2374610a3f79087a7dd0f264a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:07 +0000
Subject: [PATCH 15/22] fix: completion timeout range C starts at 250 ms

---
 src/capabilities/pci_express.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/capabilities/pci_express.rs b/src/capabilities/pci_express.rs
index 0bab228..ccb9f9d 100644
--- a/src/capabilities/pci_express.rs
+++ b/src/capabilities/pci_express.rs
@@ -1637,7 +1637,7 @@ pub enum CompletionTimeoutRanges {
 impl CompletionTimeoutRanges {
     pub const A: Range<f64> = 50e-6..10e-3;
     pub const B: Range<f64> = 10e-3..250e-3;
-    pub const C: Range<f64> = 250e-6..4.0;
+    pub const C: Range<f64> = 250e-3..4.0;
     pub const D: Range<f64> = 4.0..64.0;
 }
 impl From<u8> for CompletionTimeoutRanges {
-- 
2.43.0


From bff7aaa868b6a3df0758b235aea574bab9a68fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:07 +0000
Subject: [PATCH 16/22] fix: mask the reserved bits of the CXL range base

---
 .../compute_express_link/pcie_dvsec_for_cxl_device.rs           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/designated_vendor_specific_extended_capability/compute_express_link/pcie_dvsec_for_cxl_device.rs b/src/extended_capabilities/designated_vendor_specific_extended_capability/compute_express_link/pcie_dvsec_for_cxl_device.rs
index 6ce5f83..bbcfbd5 100644
--- a/src/extended_capabilities/designated_vendor_specific_extended_capability/compute_express_link/pcie_dvsec_for_cxl_device.rs
+++ b/src/extended_capabilities/designated_vendor_specific_extended_capability/compute_express_link/pcie_dvsec_for_cxl_device.rs
@@ -735,7 +735,7 @@ impl CxlRangeBase {
 impl CxlRangeBase {
     pub fn new(low: u32, high: u32) -> Self {
         Self {
-            memory_base: (low as u64) | ((high as u64) << 32),
+            memory_base: (low as u64 & !0xFFF_FFFF) | ((high as u64) << 32),
         }
     }
 }
-- 
2.43.0


From ffc56cb95ab827abaca191f2756189a8944a92ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:07 +0000
Subject: [PATCH 17/22] fix: report the number of allocation entries a DPA
 structure needs

---
 src/extended_capabilities/dynamic_power_allocation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/dynamic_power_allocation.rs b/src/extended_capabilities/dynamic_power_allocation.rs
index 50fc5b6..8274f95 100644
--- a/src/extended_capabilities/dynamic_power_allocation.rs
+++ b/src/extended_capabilities/dynamic_power_allocation.rs
@@ -98,7 +98,7 @@ impl<'a> TryFrom<&'a [u8]> for DynamicPowerAllocation<'a> {
         let substate_max = substate_max as usize;
         tail.get(..substate_max + 1)
             .ok_or(DynamicPowerAllocationError::DpaAllocationArray {
-                expected: substate_max,
+                expected: substate_max + 1,
                 found: tail.len(),
             })
             .map(|slice| Self {
-- 
2.43.0


From 2b3d42410e62a69a5c709bf5337daa63d3de9b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:07 +0000
Subject: [PATCH 18/22] fix: report the number of bytes LTR and VC structures
 need

---
 src/extended_capabilities/latency_tolerance_reporting.rs | 2 +-
 src/extended_capabilities/virtual_channel.rs             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/extended_capabilities/latency_tolerance_reporting.rs b/src/extended_capabilities/latency_tolerance_reporting.rs
index 47277f0..ac9979b 100644
--- a/src/extended_capabilities/latency_tolerance_reporting.rs
+++ b/src/extended_capabilities/latency_tolerance_reporting.rs
@@ -52,7 +52,7 @@ impl TryFrom<&[u8]> for LatencyToleranceReporting {
             .try_into()
             .map_err(|_| ExtendedCapabilityDataError {
                 name: "Latency Tolerance Reporting",
-                size: 8,
+                size: 4,
             })?;
         Ok(Self {
             max_snoop_latency: From::<u16>::from(max_snoop_latency),
diff --git a/src/extended_capabilities/virtual_channel.rs b/src/extended_capabilities/virtual_channel.rs
index 3d29dbc..8383afe 100644
--- a/src/extended_capabilities/virtual_channel.rs
+++ b/src/extended_capabilities/virtual_channel.rs
@@ -162,7 +162,7 @@ impl<'a> TryFrom<&'a [u8]> for VirtualChannel<'a> {
             .try_into()
             .map_err(|_| ExtendedCapabilityDataError {
                 name: "Virtual Channel",
-                size: 8,
+                size: 12,
             })?;
         Ok(Self {
             data: slice,
-- 
2.43.0


From 16cc3f6c79eb9018502736ddcbfca3a0660c4b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:07 +0000
Subject: [PATCH 19/22] fix: the thermal power rail is encoded as 111b

---
 src/extended_capabilities/power_budgeting.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/extended_capabilities/power_budgeting.rs b/src/extended_capabilities/power_budgeting.rs
index fae7b14..dc2a88a 100644
--- a/src/extended_capabilities/power_budgeting.rs
+++ b/src/extended_capabilities/power_budgeting.rs
@@ -247,10 +247,10 @@ pub enum PowerRail {
 impl From<u8> for PowerRail {
     fn from(byte: u8) -> Self {
         match byte {
-            0b00 => Self::Power12v,
-            0b01 => Self::Power3_3v,
-            0b10 => Self::Power1_5vOr1_8v,
-            0b11 => Self::Thermal,
+            0b000 => Self::Power12v,
+            0b001 => Self::Power3_3v,
+            0b010 => Self::Power1_5vOr1_8v,
+            0b111 => Self::Thermal,
             v => Self::Reserved(v),
         }
     }
-- 
2.43.0


From cfc9c2d59773a3cfe63cedd1ff6dab76433f9770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:35 +0000
Subject: [PATCH 20/22] fix: report extended capabilities 002Dh to 0034h as
 their kind

---
 src/extended_capabilities.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/extended_capabilities.rs b/src/extended_capabilities.rs
index 21f5b60..fa4ee97 100644
--- a/src/extended_capabilities.rs
+++ b/src/extended_capabilities.rs
@@ -444,6 +444,14 @@ fn parse_ecap<'a>(
         0x002A => Kind::PhysicalLayer32GTps(PhysicalLayer32GTps),
         0x002B => Kind::AlternateProtocol(AlternateProtocol),
         0x002C => Kind::SystemFirmwareIntermediary(SystemFirmwareIntermediary),
+        0x002D => Kind::ShadowFunctions(ShadowFunctions),
+        0x002E => Kind::DataObjectExchange(DataObjectExchange),
+        0x002F => Kind::Device3(Device3),
+        0x0030 => Kind::IntegrityAndDataEncryption(IntegrityAndDataEncryption),
+        0x0031 => Kind::PhysicalLayer64GTps(PhysicalLayer64GTps),
+        0x0032 => Kind::FlitLogging(FlitLogging),
+        0x0033 => Kind::FlitPerformanceMeasurement(FlitPerformanceMeasurement),
+        0x0034 => Kind::FlitErrorInjection(FlitErrorInjection),
         v => Kind::Reserved(v),
     };
     Ok(ExtendedCapability {
-- 
2.43.0


From f8f03978cb13ce28c22351cc8a13e7447c424e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:15 +0000
Subject: [PATCH 21/22] fix: compare the partly consumed byte of port
 arbitration tables

Two PortArbitrationTable iterators in the middle of a byte compared equal
even when the entries left in that byte differ.
---
 src/extended_capabilities/virtual_channel.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/extended_capabilities/virtual_channel.rs b/src/extended_capabilities/virtual_channel.rs
index 8383afe..ea84cec 100644
--- a/src/extended_capabilities/virtual_channel.rs
+++ b/src/extended_capabilities/virtual_channel.rs
@@ -432,6 +432,7 @@ impl<'a> PartialEq for PortArbitrationTable<'a> {
         self.data.clone().eq(other.data.clone())
             && self.entry_size_bits == other.entry_size_bits
             && self.shift == other.shift
+            && (self.shift == 0 || self.byte == other.byte)
     }
 }
 impl<'a> Eq for PortArbitrationTable<'a> {}
-- 
2.43.0


From 7eb137c8505bfdd331c8f3285455fe8b5cc1e3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:04 +0000
Subject: [PATCH 22/22] fix: compare the state of link entries

Two link entry iterators over the same readable entries, of which one is
incomplete, compared equal although their public state differs.
---
 src/extended_capabilities/root_complex_link_declaration.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extended_capabilities/root_complex_link_declaration.rs b/src/extended_capabilities/root_complex_link_declaration.rs
index 4583339..73a3c58 100644
--- a/src/extended_capabilities/root_complex_link_declaration.rs
+++ b/src/extended_capabilities/root_complex_link_declaration.rs
@@ -260,7 +260,7 @@ impl<'a> LinkEntries<'a> {
 
 impl<'a> PartialEq for LinkEntries<'a> {
     fn eq(&self, other: &Self) -> bool {
-        self.clone().eq(other.clone())
+        self.state == other.state && self.clone().eq(other.clone())
     }
 }
 impl<'a> Eq for LinkEntries<'a> {}
-- 
2.43.0

