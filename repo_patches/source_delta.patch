From 14bb7fe8b17fa78fd085f06b66d8d2cd36991f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:27 +0000
Subject: [PATCH 01/11] fix: derange ranges that reach the end of the address
 space

Converting a range ending at the last address panicked because no subnet
follows, and a range spanning the whole address space underflowed the prefix.
---
 src/cmds/derange.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cmds/derange.rs b/src/cmds/derange.rs
index 83d7738..c18881a 100644
--- a/src/cmds/derange.rs
+++ b/src/cmds/derange.rs
@@ -65,12 +65,16 @@ pub fn range_to_subnets<A: IpAddress>(
     // start with the full mask
     let mut current_subnet = IpNetwork::new_with_prefix(first_addr, last_addr.byte_count() * 8);
     while first_addr <= last_addr {
-        // try enlarging the subnet
-        let larger_subnet = IpNetwork::new_with_prefix(first_addr, current_subnet.cidr_prefix().unwrap() - 1);
-        if larger_subnet.base_addr() != first_addr || larger_subnet.last_addr_of_subnet() > last_addr {
+        // try enlarging the subnet (unless it is the whole address space already)
+        let cidr_prefix = current_subnet.cidr_prefix().unwrap();
+        let larger_subnet = IpNetwork::new_with_prefix(first_addr, cidr_prefix.saturating_sub(1));
+        if cidr_prefix == 0 || larger_subnet.base_addr() != first_addr || larger_subnet.last_addr_of_subnet() > last_addr {
             // we've gone beyond; store what we have and continue with the next chunk
             ret.push(current_subnet);
-            first_addr = current_subnet.next_subnet_base_addr().unwrap();
+            first_addr = match current_subnet.next_subnet_base_addr() {
+                Some(nsba) => nsba,
+                None => break, // we have reached the end of the address space
+            };
             current_subnet = IpNetwork::new_with_prefix(first_addr, last_addr.byte_count() * 8);
         } else {
             // anchor the growth and continue
-- 
2.43.0


From a73f8bf11ddd2b8ef4edfb692abb787931233105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 02/11] fix: split networks that reach the end of the address
 space

A split was refused as impossible if its last block ended at the last address
of the address space, or if the whole address space was needed for it.
---
 src/cmds/split.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/cmds/split.rs b/src/cmds/split.rs
index 958c2ce..0c7ac36 100644
--- a/src/cmds/split.rs
+++ b/src/cmds/split.rs
@@ -100,8 +100,10 @@ pub fn split_subnet<A: IpAddress>(subnet: IpNetwork<A>, host_counts: Vec<BigInt>
 
     let mut index_to_subnet: HashMap<usize, IpNetwork<A>> = HashMap::new();
 
-    let mut current_net = IpNetwork::new_with_prefix(subnet.base_addr(), subnet.subnet_mask().byte_count()*8);
+    let mut next_base_addr = Some(subnet.base_addr());
     for (i, host_count) in indexes_and_host_counts {
+        // if there is no next base address, the address space is exhausted
+        let mut current_net = IpNetwork::new_with_prefix(next_base_addr?, subnet.subnet_mask().byte_count()*8);
         while current_net.host_count() < host_count {
             let cidr_prefix = current_net.cidr_prefix().unwrap();
             if cidr_prefix == 0 {
@@ -110,18 +112,14 @@ pub fn split_subnet<A: IpAddress>(subnet: IpNetwork<A>, host_counts: Vec<BigInt>
             current_net = IpNetwork::new_with_prefix(current_net.base_addr(), cidr_prefix - 1);
         }
 
-        if current_net.cidr_prefix().unwrap() == 0 {
+        if current_net.host_count() < host_count {
             // this won't fit
             return None;
         }
 
         // we fit!
         index_to_subnet.insert(i, current_net);
-        let next_subnet_base_addr = match current_net.next_subnet_base_addr() {
-            Some(nsba) => nsba,
-            None => return None,
-        };
-        current_net = IpNetwork::new_with_prefix(next_subnet_base_addr, current_net.subnet_mask().byte_count()*8);
+        next_base_addr = current_net.next_subnet_base_addr();
     }
 
     let mut ordered_subnets: Vec<(usize, IpNetwork<A>)> = index_to_subnet.iter()
-- 
2.43.0


From 831365a26d7d17363b2689ece40edf50cdd3041a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:08 +0000
Subject: [PATCH 03/11] fix: report blocks larger than the split network and
 full networks correctly

A block larger than the network being split was presented as fitting, and a
network with nothing left over was reported with addresses that are not unused.
---
 src/cmds/split.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cmds/split.rs b/src/cmds/split.rs
index 0c7ac36..06ded74 100644
--- a/src/cmds/split.rs
+++ b/src/cmds/split.rs
@@ -71,15 +71,17 @@ fn output_split<A: IpAddress, ON: Fn(IpNetwork<A>, Option<A>)>(subnet: IpNetwork
         .map(|sn| sn.last_addr_of_subnet())
         .max()
         .expect("no subnets returned");
-    if !subnet.contains(&max_used_address) {
+    if !split_subnets.iter().all(|sn| subnet.is_superset_of(sn)) {
         println!("Network is too small");
     } else if let Some(next_unused_address) = max_used_address.add_offset(1) {
         println!("Unused networks:");
         let last_address = subnet.last_addr_of_subnet();
-        let unused_subnets = range_to_subnets(next_unused_address, last_address);
+        if next_unused_address <= last_address {
+            let unused_subnets = range_to_subnets(next_unused_address, last_address);
 
-        for unused_subnet in unused_subnets {
-            println!("{}", unused_subnet);
+            for unused_subnet in unused_subnets {
+                println!("{}", unused_subnet);
+            }
         }
     }
 
-- 
2.43.0


From f7d0e772ac7e593b1e772127946e2935f6999264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 04/11] fix: accept IPv6 addresses whose first or last group
 only is shortened

"1:2:3:4:5:6:7::" and "::2:3:4:5:6:7:8" were rejected, although ripcalc
itself prints addresses in this form.
---
 src/addr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/addr.rs b/src/addr.rs
index 0bb0fc3..c6a1f3f 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -403,7 +403,9 @@ impl FromStr for Ipv6Address {
         }
 
         let chunks: Vec<&str> = addr_str.split(":").collect();
-        if chunks.len() > 8 {
+        // "::" at the start or the end takes up two chunks (a zero and an empty chunk)
+        let max_chunks = if s.starts_with("::") || s.ends_with("::") { 9 } else { 8 };
+        if chunks.len() > max_chunks {
             return Err(IpAddressParseError::IncorrectChunkCount(chunks.len(), 8));
         }
 
-- 
2.43.0


From fcd65363308aa74efe9725856897d54dbbdbfd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 05/11] fix: reject IPv6 addresses with a lone colon at the
 start or the end

":1:2:3:4:5:6:7" was read as "0:1:2:3:4:5:6:7" and "::1:" as "::1:0".
---
 src/addr.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/addr.rs b/src/addr.rs
index c6a1f3f..e3eee37 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -455,6 +455,14 @@ impl FromStr for Ipv6Address {
             // leave remaining chunks as zero
         }
 
+        // a single colon at the start or the end has an empty chunk next to it
+        if s.starts_with(':') && !s.starts_with("::") {
+            return Err(IpAddressParseError::EmptyChunk(0));
+        }
+        if s.ends_with(':') && !s.ends_with("::") {
+            return Err(IpAddressParseError::EmptyChunk(7));
+        }
+
         let mut top_half: u64 = 0;
         let mut bottom_half: u64 = 0;
         for i in 0..8 {
-- 
2.43.0


From 40ac1216def5419396404b81d0915ba3690dfd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 06/11] fix: reject signs in addresses and prefix lengths

The number parsers accept a leading plus sign, so "1.+2.3.4", "1:+2::" and
"--resize NET +24" were taken for addresses and prefix lengths.
---
 src/addr.rs     | 10 ++++++++++
 src/cmds/mod.rs |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/src/addr.rs b/src/addr.rs
index e3eee37..dedc23e 100644
--- a/src/addr.rs
+++ b/src/addr.rs
@@ -146,6 +146,9 @@ impl FromStr for Ipv4Address {
             if chunks[i].len() == 0 {
                 return Err(IpAddressParseError::EmptyChunk(i));
             }
+            if chunks[i].starts_with('+') {
+                return Err(IpAddressParseError::UnexpectedSign(i, String::from(chunks[i])));
+            }
 
             let chunk_val: u32 = chunks[i].parse()
                 .map_err(|e| IpAddressParseError::ChunkParseError(i, String::from(chunks[i]), e))?;
@@ -470,6 +473,10 @@ impl FromStr for Ipv6Address {
             let shift_count_within_half = shift_count % 64;
             let into_top_half = i < 4;
 
+            if actual_chunks[i].starts_with('+') {
+                return Err(IpAddressParseError::UnexpectedSign(i, actual_chunks[i].clone()));
+            }
+
             let chunk_value = match u16::from_str_radix(&actual_chunks[i], 16) {
                 Ok(v) => v,
                 Err(e)
@@ -591,6 +598,7 @@ pub enum IpAddressParseError {
     UnknownAddressType,
     IncorrectChunkCount(usize, usize),
     EmptyChunk(usize),
+    UnexpectedSign(usize, String),
     ChunkParseError(usize, String, ParseIntError),
     ChunkOutOfRange(usize, u32, u32, u32),
     TooManyShorteningElements(usize, usize),
@@ -604,6 +612,8 @@ impl fmt::Display for IpAddressParseError {
                 => write!(f, "IP address has {} chunk(s); expected {}", got, expected),
             IpAddressParseError::EmptyChunk(chunk_idx)
                 => write!(f, "IP address chunk with index {} is empty", chunk_idx),
+            IpAddressParseError::UnexpectedSign(chunk_idx, chunk)
+                => write!(f, "IP address chunk with index {} ({:?}) has a sign", chunk_idx, chunk),
             IpAddressParseError::ChunkParseError(chunk_idx, chunk, error)
                 => write!(f, "failed to parse IP address chunk with index {} ({:?}): {}", chunk_idx, chunk, error),
             IpAddressParseError::ChunkOutOfRange(chunk_idx, got, min, max)
diff --git a/src/cmds/mod.rs b/src/cmds/mod.rs
index 88c49dd..336acd2 100644
--- a/src/cmds/mod.rs
+++ b/src/cmds/mod.rs
@@ -270,6 +270,8 @@ pub fn parse_subnet(spec: &str) -> Result<ParsedSubnet, ParseNetspecError> {
             },
         };
         Ok(ParsedSubnet::Ipv4Mask(ipv4_addr))
+    } else if spec.starts_with('+') {
+        Err(ParseNetspecError::Unrecognized(String::from(spec)))
     } else {
         let cidr_prefix: usize = match spec.parse() {
             Ok(cp) => cp,
-- 
2.43.0


From 9762a05d7ee57a04cc58cc39773a5616662aaf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:07 +0000
Subject: [PATCH 07/11] fix: accept upper-case hexadecimal digits in IPv6
 network specifications

---
 src/cmds/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmds/mod.rs b/src/cmds/mod.rs
index 336acd2..a2afb24 100644
--- a/src/cmds/mod.rs
+++ b/src/cmds/mod.rs
@@ -25,10 +25,10 @@ static IPV4_WITH_CIDR_REGEX: Lazy<Regex> = Lazy::new(||
     Regex::new("^(?P<addr>[0-9]+(?:[.][0-9]+){3})/(?P<wildcard>-)?(?P<cidr>[0-9]+)$").unwrap()
 );
 static IPV6_WITH_SUBNET_REGEX: Lazy<Regex> = Lazy::new(||
-    Regex::new("^(?P<addr>[0-9a-f:]+)/(?P<wildcard>-)?(?P<mask>[0-9a-f:]*:[0-9a-f:]*)$").unwrap()
+    Regex::new("^(?P<addr>[0-9A-Fa-f:]+)/(?P<wildcard>-)?(?P<mask>[0-9A-Fa-f:]*:[0-9A-Fa-f:]*)$").unwrap()
 );
 static IPV6_WITH_CIDR_REGEX: Lazy<Regex> = Lazy::new(||
-    Regex::new("^(?P<addr>[0-9a-f:]+)/(?P<wildcard>-)?(?P<cidr>[0-9]+)$").unwrap()
+    Regex::new("^(?P<addr>[0-9A-Fa-f:]+)/(?P<wildcard>-)?(?P<cidr>[0-9]+)$").unwrap()
 );
 
 
-- 
2.43.0


From fa736818c412a35b0cfcd219066203f1a4a42e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 08/11] fix: print each line of a report as one line

Without colours, every fragment of a report line ended up on a line of its own;
with colours, the "no hosts/net" line had no line break.
---
 src/cmds/show_net.rs | 2 +-
 src/console.rs       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmds/show_net.rs b/src/cmds/show_net.rs
index 1802ebb..b6d119c 100644
--- a/src/cmds/show_net.rs
+++ b/src/cmds/show_net.rs
@@ -117,10 +117,10 @@ fn output_network<A: IpAddress, OBA: Fn(A, Option<A>, bool, Option<Color>), OC:
             let top_bits = bytes_to_binary(&net.base_addr().to_bytes()[0..1]);
             let top_mask_bits = bytes_to_binary(&net.subnet_mask().to_bytes()[0..1]);
             output_class(&top_bits, &top_mask_bits);
-            println!();
         } else {
             write_in_color("no hosts/net", Some(LABEL_COLOR), 0);
         }
+        println!();
     }
 }
 
diff --git a/src/console.rs b/src/console.rs
index 31f2031..a9411b6 100644
--- a/src/console.rs
+++ b/src/console.rs
@@ -78,5 +78,5 @@ pub fn write_in_color<S: AsRef<str>>(text: S, color: Option<Color>, pad_to: isiz
         }
     }
 
-    println!("{}", padded);
+    print!("{}", padded);
 }
-- 
2.43.0


From c3f28da89964c91a0b539549c84530bfc4a3f22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:54 +0000
Subject: [PATCH 09/11] fix: drop networks contained in one that minimizing has
 merged

With lopsided masks, merging two networks can yield one that contains another
remaining network, which was then listed although it is redundant.
---
 src/cmds/minimize.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/cmds/minimize.rs b/src/cmds/minimize.rs
index f828662..9e9b873 100644
--- a/src/cmds/minimize.rs
+++ b/src/cmds/minimize.rs
@@ -113,9 +113,8 @@ pub fn minimize_subnets<A: IpAddress>(
                 assert!(new_subnet.is_superset_of(&subnets[i]));
                 assert!(new_subnet.is_superset_of(&subnets[j]));
 
-                // replace the lower subnets with the upper subnet
-                filtered_subnets.remove(&subnets[i]);
-                filtered_subnets.remove(&subnets[j]);
+                // replace the lower subnets (and any others contained in it) with the upper subnet
+                filtered_subnets.retain(|net| !new_subnet.is_superset_of(net));
                 filtered_subnets.insert(new_subnet);
 
                 subnets_merged = true;
-- 
2.43.0


From fbc9df540d99c52b208d3d5190610f6ef1ab108d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 10/11] fix: colour class bits of short prefixes by the bits
 that define the class

The check whether all class-defining bits are network bits looked at a later
bit without the ones before it, so 64.0.0.0/2 (class A), for instance, lost its
class colour.
---
 src/cmds/show_net.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cmds/show_net.rs b/src/cmds/show_net.rs
index b6d119c..5ddb2bc 100644
--- a/src/cmds/show_net.rs
+++ b/src/cmds/show_net.rs
@@ -176,10 +176,10 @@ fn output_binary_ipv4_address(
                 } else if bitvec[0] == '1' && mask_bitvec[1] == '0' {
                     // first bit, 1, is part of the network, but second isn't
                     color_class = false;
-                } else if bitvec[1] == '1' && mask_bitvec[2] == '0' {
+                } else if bits.starts_with("11") && mask_bitvec[2] == '0' {
                     // first two bits, both 1, are part of the network, but third isn't
                     color_class = false;
-                } else if bitvec[2] == '1' && mask_bitvec[3] == '0' {
+                } else if bits.starts_with("111") && mask_bitvec[3] == '0' {
                     // first two bits, both 1, are part of the network, but third isn't
                     color_class = false;
                 }
-- 
2.43.0


From 1d20b91dc6a5bc2769f44496f75368bdfb42688c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:34 +0000
Subject: [PATCH 11/11] fix: accept wildcards as the target of --resize

The usage text offers -WILDCARD for every SUBNET, but --resize took only masks
and prefix lengths.
---
 src/cmds/mod.rs    | 18 +++++++++++++++---
 src/cmds/resize.rs | 16 ++++++++++++++++
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/cmds/mod.rs b/src/cmds/mod.rs
index a2afb24..f0828b9 100644
--- a/src/cmds/mod.rs
+++ b/src/cmds/mod.rs
@@ -64,11 +64,12 @@ pub enum NetworkSpecs {
     Ipv6(Vec<(Ipv6Address, IpNetwork<Ipv6Address>)>),
 }
 
-/// A subnet specification parsed from a string, in the form of either a CIDR prefix or a subnet
-/// mask.
+/// A subnet specification parsed from a string, in the form of either a CIDR prefix (or its wildcard,
+/// i.e. the number of host bits) or a subnet mask.
 #[derive(Clone, Debug, Eq, Hash, Ord, PartialEq, PartialOrd)]
 pub enum ParsedSubnet {
     Cidr(usize),
+    CidrWildcard(usize),
     Ipv4Mask(Ipv4Address),
     Ipv6Mask(Ipv6Address),
 }
@@ -252,8 +253,19 @@ pub fn parse_same_family_netspecs<S: AsRef<str>>(spec_strs: &[S]) -> Result<Netw
     }
 }
 
-/// Attempts to parse a subnet specification (mask or CIDR prefix).
+/// Attempts to parse a subnet specification (mask or CIDR prefix, or a wildcard for either).
 pub fn parse_subnet(spec: &str) -> Result<ParsedSubnet, ParseNetspecError> {
+    if spec.starts_with("--") {
+        return Err(ParseNetspecError::Unrecognized(String::from(spec)));
+    } else if let Some(wildcard) = spec.strip_prefix('-') {
+        return match parse_subnet(wildcard)? {
+            ParsedSubnet::Cidr(host_bits) => Ok(ParsedSubnet::CidrWildcard(host_bits)),
+            ParsedSubnet::Ipv4Mask(m) => Ok(ParsedSubnet::Ipv4Mask(m.bitwise_negate())),
+            ParsedSubnet::Ipv6Mask(m) => Ok(ParsedSubnet::Ipv6Mask(m.bitwise_negate())),
+            ParsedSubnet::CidrWildcard(host_bits) => Ok(ParsedSubnet::CidrWildcard(host_bits)),
+        };
+    }
+
     if spec.contains(':') {
         let ipv6_addr: Ipv6Address = match spec.parse() {
             Ok(ia) => ia,
diff --git a/src/cmds/resize.rs b/src/cmds/resize.rs
index 0192acd..8edfa74 100644
--- a/src/cmds/resize.rs
+++ b/src/cmds/resize.rs
@@ -36,6 +36,14 @@ pub fn resize(args: &[String]) -> i32 {
                     let mask_bytes = subnet_mask_bytes_from_prefix(cidr, 4);
                     Ipv4Address::from_bytes(&mask_bytes).unwrap()
                 },
+                Ok(ParsedSubnet::CidrWildcard(host_bits)) => {
+                    if host_bits > 32 {
+                        eprintln!("CIDR value {} is greater than maximum for IPv4 (32)", host_bits);
+                        return 1;
+                    }
+                    let mask_bytes = subnet_mask_bytes_from_prefix(32 - host_bits, 4);
+                    Ipv4Address::from_bytes(&mask_bytes).unwrap()
+                },
                 Ok(ParsedSubnet::Ipv4Mask(m)) => {
                     m
                 },
@@ -61,6 +69,14 @@ pub fn resize(args: &[String]) -> i32 {
                     let mask_bytes = subnet_mask_bytes_from_prefix(cidr, 16);
                     Ipv6Address::from_bytes(&mask_bytes).unwrap()
                 },
+                Ok(ParsedSubnet::CidrWildcard(host_bits)) => {
+                    if host_bits > 128 {
+                        eprintln!("CIDR value {} is greater than maximum for IPv6 (128)", host_bits);
+                        return 1;
+                    }
+                    let mask_bytes = subnet_mask_bytes_from_prefix(128 - host_bits, 16);
+                    Ipv6Address::from_bytes(&mask_bytes).unwrap()
+                },
                 Ok(ParsedSubnet::Ipv6Mask(m)) => {
                     m
                 },
-- 
2.43.0

