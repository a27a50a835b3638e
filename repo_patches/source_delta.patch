From e46d2d9314b44f47f9a1cd4353f452e8709222b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 01/14] fix: reject R1CS sections that run past the end of the
 file

A section size is taken from the file and was cast to i64 and used as a
seek offset: sizes of 2^63 and more seek backwards, so a 40-byte file can
make the section scan revisit the same bytes billions of times, and a last
section larger than the file was accepted. Element counts from the file
were also used as allocation sizes before any element was read.
---
 packages/zkenc-cli/src/r1cs.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/packages/zkenc-cli/src/r1cs.rs b/packages/zkenc-cli/src/r1cs.rs
index f4f739b..34e696c 100644
--- a/packages/zkenc-cli/src/r1cs.rs
+++ b/packages/zkenc-cli/src/r1cs.rs
@@ -96,6 +96,7 @@ impl R1csFile {
     pub fn from_file<P: AsRef<Path>>(path: P) -> Result<Self> {
         let file = File::open(path.as_ref())
             .with_context(|| format!("Failed to open R1CS file: {:?}", path.as_ref()))?;
+        let file_size = file.metadata()?.len();
         let mut reader = BufReader::new(file);
 
         // Parse magic number "r1cs"
@@ -120,6 +121,9 @@ impl R1csFile {
             let section_type = read_u32(&mut reader)?;
             let section_size = read_u64(&mut reader)?;
             let section_pos = reader.stream_position()?;
+            if section_size > file_size.saturating_sub(section_pos) {
+                bail!("Section {} runs past the end of the file", section_type);
+            }
             sections.push((section_type, section_size, section_pos));
             reader.seek_relative(section_size as i64)?;
         }
@@ -201,7 +205,7 @@ impl R1csFile {
         n_constraints: usize,
         field_size: usize,
     ) -> Result<Vec<Constraint>> {
-        let mut constraints = Vec::with_capacity(n_constraints);
+        let mut constraints = Vec::new();
 
         for _ in 0..n_constraints {
             let a = Self::parse_lc(reader, field_size)?;
@@ -216,7 +220,7 @@ impl R1csFile {
 
     fn parse_lc(reader: &mut BufReader<File>, field_size: usize) -> Result<LinearCombination> {
         let n_factors = read_u32(reader)?;
-        let mut factors = Vec::with_capacity(n_factors as usize);
+        let mut factors = Vec::new();
 
         for _ in 0..n_factors {
             let wire_id = read_u32(reader)?;
@@ -229,7 +233,7 @@ impl R1csFile {
     }
 
     fn parse_wire2label(reader: &mut BufReader<File>, n_wires: usize) -> Result<Vec<u64>> {
-        let mut wire2label = Vec::with_capacity(n_wires);
+        let mut wire2label = Vec::new();
         for _ in 0..n_wires {
             wire2label.push(read_u64(reader)?);
         }
-- 
2.43.0


From 724790b8c6350121260c00e4dee46ff31eea6c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 02/14] fix: reject R1CS files that refer to wires they do not
 declare

A factor on a wire outside 0..n_wires was accepted and later dropped
silently when the constraint system was built, which weakens the circuit;
a header with more public signals than wires made the public input count
overflow.
---
 packages/zkenc-cli/src/r1cs.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/packages/zkenc-cli/src/r1cs.rs b/packages/zkenc-cli/src/r1cs.rs
index 34e696c..3e3cb43 100644
--- a/packages/zkenc-cli/src/r1cs.rs
+++ b/packages/zkenc-cli/src/r1cs.rs
@@ -149,6 +149,7 @@ impl R1csFile {
                 &mut reader,
                 header.n_constraints as usize,
                 header.field_size as usize,
+                header.n_wires,
             )?
         };
 
@@ -188,6 +189,11 @@ impl R1csFile {
         let n_labels = read_u64(reader)?;
         let n_constraints = read_u32(reader)?;
 
+        // Wire 0 is the constant, wires 1..=n_pub_out + n_pub_in are public
+        if n_pub_out as u64 + n_pub_in as u64 >= n_wires as u64 {
+            bail!("Header declares more public signals than wires");
+        }
+
         Ok(R1csHeader {
             field_size,
             prime,
@@ -204,13 +210,14 @@ impl R1csFile {
         reader: &mut BufReader<File>,
         n_constraints: usize,
         field_size: usize,
+        n_wires: u32,
     ) -> Result<Vec<Constraint>> {
         let mut constraints = Vec::new();
 
         for _ in 0..n_constraints {
-            let a = Self::parse_lc(reader, field_size)?;
-            let b = Self::parse_lc(reader, field_size)?;
-            let c = Self::parse_lc(reader, field_size)?;
+            let a = Self::parse_lc(reader, field_size, n_wires)?;
+            let b = Self::parse_lc(reader, field_size, n_wires)?;
+            let c = Self::parse_lc(reader, field_size, n_wires)?;
 
             constraints.push(Constraint { a, b, c });
         }
@@ -218,12 +225,19 @@ impl R1csFile {
         Ok(constraints)
     }
 
-    fn parse_lc(reader: &mut BufReader<File>, field_size: usize) -> Result<LinearCombination> {
+    fn parse_lc(
+        reader: &mut BufReader<File>,
+        field_size: usize,
+        n_wires: u32,
+    ) -> Result<LinearCombination> {
         let n_factors = read_u32(reader)?;
         let mut factors = Vec::new();
 
         for _ in 0..n_factors {
             let wire_id = read_u32(reader)?;
+            if wire_id >= n_wires {
+                bail!("Wire {} in a constraint is out of range", wire_id);
+            }
             let mut value = vec![0u8; field_size];
             reader.read_exact(&mut value)?;
             factors.push((wire_id, value));
-- 
2.43.0


From 20292fb078b8873c5d8b9d965cd37f741986de46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 03/14] fix: bind every public signal in the CLI encap and
 encrypt commands

Wires 1..n_pub_out are the public outputs and the public inputs follow them, so
a bound of n_pub_in dropped the last n_pub_out public inputs.
---
 packages/zkenc-cli/src/commands.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/zkenc-cli/src/commands.rs b/packages/zkenc-cli/src/commands.rs
index 4cb13e8..8df70e3 100644
--- a/packages/zkenc-cli/src/commands.rs
+++ b/packages/zkenc-cli/src/commands.rs
@@ -39,7 +39,8 @@ pub fn encap_command(
     let sym_content = fs::read_to_string(sym_path).context("Failed to read symbol file")?;
     let wire_map =
         super::sym_parser::parse_sym_file(&sym_content).context("Failed to parse symbol file")?;
-    let input_signals = super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_pub_in));
+    let input_signals =
+        super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_public_inputs()));
 
     // Parse public inputs from JSON with key names
     println!("\n📋 Loading public inputs from JSON...");
@@ -176,7 +177,8 @@ pub fn encrypt_command(
     let sym_content = fs::read_to_string(sym_path).context("Failed to read symbol file")?;
     let wire_map =
         super::sym_parser::parse_sym_file(&sym_content).context("Failed to parse symbol file")?;
-    let input_signals = super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_pub_in));
+    let input_signals =
+        super::sym_parser::get_input_signals(&wire_map, Some(r1cs.n_public_inputs()));
 
     // Parse public inputs from JSON with key names
     println!("\n📋 Loading public inputs from JSON...");
-- 
2.43.0


From b9ed17f915a5887be95b955e71235be2453d7704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 04/14] fix: read negative JSON integers as negative field
 elements

i as u64 turned -1 into 2^64-1 instead of the field element -1.
---
 packages/zkenc-cli/src/commands.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/zkenc-cli/src/commands.rs b/packages/zkenc-cli/src/commands.rs
index 8df70e3..da477f2 100644
--- a/packages/zkenc-cli/src/commands.rs
+++ b/packages/zkenc-cli/src/commands.rs
@@ -421,7 +421,7 @@ fn parse_circuit_inputs(json_str: &str) -> Result<Vec<Fr>> {
                 let num = if let Some(u) = n.as_u64() {
                     Fr::from(u)
                 } else if let Some(i) = n.as_i64() {
-                    Fr::from(i as u64)
+                    Fr::from(i)
                 } else {
                     anyhow::bail!("Unsupported number format");
                 };
@@ -473,7 +473,7 @@ fn parse_circuit_inputs_with_keys(json_str: &str) -> Result<HashMap<String, Fr>>
                 let num = if let Some(u) = n.as_u64() {
                     Fr::from(u)
                 } else if let Some(i) = n.as_i64() {
-                    Fr::from(i as u64)
+                    Fr::from(i)
                 } else {
                     anyhow::bail!("Unsupported number format");
                 };
-- 
2.43.0


From 04ac3b4e1cb62fb2f36f8f6af13c687058210a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 05/14] fix: map the elements of nested arrays to their wires

{"a": [[1, 2]]} looked up a[0] only, so multi-dimensional signals were dropped.
---
 packages/zkenc-js/src/sym_parser.ts | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/packages/zkenc-js/src/sym_parser.ts b/packages/zkenc-js/src/sym_parser.ts
index 01d6be3..d845ec6 100644
--- a/packages/zkenc-js/src/sym_parser.ts
+++ b/packages/zkenc-js/src/sym_parser.ts
@@ -95,13 +95,9 @@ export function mapInputsToWires(
     const fullKey = prefix ? `${prefix}.${key}` : key;
 
     if (Array.isArray(value)) {
-      // Handle array inputs
+      // Recursively handle array elements
       for (let i = 0; i < value.length; i++) {
-        const arrayKey = `${fullKey}[${i}]`;
-        const wireId = wireMap.get(arrayKey);
-        if (wireId !== undefined) {
-          wireValues.set(wireId, value[i].toString());
-        }
+        flattenInput(`${fullKey}[${i}]`, value[i]);
       }
     } else if (typeof value === "object" && value !== null) {
       // Recursively handle nested objects
-- 
2.43.0


From 6baa15d9de8320d3cd3ecbed78e9507daecfcc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:15 +0000
Subject: [PATCH 06/14] fix: reduce public inputs modulo the field order in
 encap

A negative value was written as its 256-bit two's complement and a value of
2^256 or more was cut to its low 256 bits, both being other field elements.
---
 packages/zkenc-js/src/zkenc.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/zkenc-js/src/zkenc.ts b/packages/zkenc-js/src/zkenc.ts
index c0b384c..4830b81 100644
--- a/packages/zkenc-js/src/zkenc.ts
+++ b/packages/zkenc-js/src/zkenc.ts
@@ -205,7 +205,8 @@ function serializeWitnessSimple(witness: bigint[]): Uint8Array {
 
   // Witness values
   for (const value of witness) {
-    const valueBytes = bigIntToLeBytes32(value);
+    const reduced = ((value % bn254Prime) + bn254Prime) % bn254Prime;
+    const valueBytes = bigIntToLeBytes32(reduced);
     bytes.set(valueBytes, offset);
     offset += 32;
   }
-- 
2.43.0


From b3588a8cfab7995a5dabe3907d22e049c6d9a435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:02 +0000
Subject: [PATCH 07/14] fix: reject circuits with impossible lengths or wires
 in the WASM binding

A section length near 2^64 overflowed the read position, more public signals
than wires overflowed the wire count, and factors on undeclared wires were
dropped from the constraint.
---
 packages/zkenc-js/src/lib.rs | 43 ++++++++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 9 deletions(-)

diff --git a/packages/zkenc-js/src/lib.rs b/packages/zkenc-js/src/lib.rs
index 71be291..43e0535 100644
--- a/packages/zkenc-js/src/lib.rs
+++ b/packages/zkenc-js/src/lib.rs
@@ -122,8 +122,12 @@ fn parse_r1cs(data: &[u8]) -> Result<(R1csHeader, Vec<R1csConstraint>), String>
     let mut sections = Vec::new();
     for _ in 0..n_sections {
         let section_type = read_u32(&mut pos)?;
-        let section_len = read_u64(&mut pos)? as usize;
+        let section_len = read_u64(&mut pos)?;
         let section_start = pos;
+        if section_len > (data.len() - section_start) as u64 {
+            return Err("Section runs past the end of data".to_string());
+        }
+        let section_len = section_len as usize;
         sections.push((section_type, section_len, section_start));
         pos = section_start + section_len;
     }
@@ -138,7 +142,7 @@ fn parse_r1cs(data: &[u8]) -> Result<(R1csHeader, Vec<R1csConstraint>), String>
         let mut header_pos = header_section.2;
         let field_size = read_u32(&mut header_pos)?;
         let prime_len = field_size as usize;
-        if header_pos + prime_len > data.len() {
+        if prime_len > data.len() - header_pos {
             return Err("Invalid prime length".to_string());
         }
         header_pos += prime_len; // Skip prime bytes
@@ -150,6 +154,11 @@ fn parse_r1cs(data: &[u8]) -> Result<(R1csHeader, Vec<R1csConstraint>), String>
         let _n_labels = read_u64(&mut header_pos)?;
         let n_constraints = read_u32(&mut header_pos)?;
 
+        // Wire 0 is the constant, wires 1..=n_pub_out + n_pub_in are public
+        if n_pub_out as u64 + n_pub_in as u64 >= n_wires as u64 {
+            return Err("Header declares more public signals than wires".to_string());
+        }
+
         R1csHeader {
             field_size,
             n_wires,
@@ -171,14 +180,26 @@ fn parse_r1cs(data: &[u8]) -> Result<(R1csHeader, Vec<R1csConstraint>), String>
 
         for _ in 0..header.n_constraints {
             // Parse A linear combination
-            let a_factors =
-                parse_linear_combination(data, &mut constraints_pos, header.field_size)?;
+            let a_factors = parse_linear_combination(
+                data,
+                &mut constraints_pos,
+                header.field_size,
+                header.n_wires,
+            )?;
             // Parse B linear combination
-            let b_factors =
-                parse_linear_combination(data, &mut constraints_pos, header.field_size)?;
+            let b_factors = parse_linear_combination(
+                data,
+                &mut constraints_pos,
+                header.field_size,
+                header.n_wires,
+            )?;
             // Parse C linear combination
-            let c_factors =
-                parse_linear_combination(data, &mut constraints_pos, header.field_size)?;
+            let c_factors = parse_linear_combination(
+                data,
+                &mut constraints_pos,
+                header.field_size,
+                header.n_wires,
+            )?;
 
             constraints.push(R1csConstraint {
                 a_factors,
@@ -197,6 +218,7 @@ fn parse_linear_combination(
     data: &[u8],
     pos: &mut usize,
     field_size: u32,
+    n_wires: u32,
 ) -> Result<Vec<(u32, Vec<u8>)>, String> {
     if *pos + 4 > data.len() {
         return Err("Unexpected end of data in LC".to_string());
@@ -213,9 +235,12 @@ fn parse_linear_combination(
         let wire_id =
             u32::from_le_bytes([data[*pos], data[*pos + 1], data[*pos + 2], data[*pos + 3]]);
         *pos += 4;
+        if wire_id >= n_wires {
+            return Err(format!("Wire {} in a constraint is out of range", wire_id));
+        }
 
         let value_len = field_size as usize;
-        if *pos + value_len > data.len() {
+        if value_len > data.len() - *pos {
             return Err("Unexpected end of data reading factor value".to_string());
         }
         let value = data[*pos..*pos + value_len].to_vec();
-- 
2.43.0


From 2a4d1c90304c509bb9a6799dab9afd817cc57d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:02 +0000
Subject: [PATCH 08/14] fix: check every length while parsing a witness in the
 WASM binding

Truncated files and section lengths past the end indexed out of bounds, and
witness data without a field size looped forever.
---
 packages/zkenc-js/src/lib.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/packages/zkenc-js/src/lib.rs b/packages/zkenc-js/src/lib.rs
index 43e0535..a4cb215 100644
--- a/packages/zkenc-js/src/lib.rs
+++ b/packages/zkenc-js/src/lib.rs
@@ -265,6 +265,10 @@ fn parse_witness(data: &[u8]) -> Result<Vec<Fr>, String> {
     }
     pos += 4;
 
+    if data.len() - pos < 8 {
+        return Err("Unexpected end of witness data".to_string());
+    }
+
     // Version
     let version = u32::from_le_bytes([data[pos], data[pos + 1], data[pos + 2], data[pos + 3]]);
     pos += 4;
@@ -280,6 +284,9 @@ fn parse_witness(data: &[u8]) -> Result<Vec<Fr>, String> {
     let mut n8 = 0usize;
 
     for _ in 0..n_sections {
+        if data.len() - pos < 12 {
+            return Err("Unexpected end of witness data".to_string());
+        }
         let section_type =
             u32::from_le_bytes([data[pos], data[pos + 1], data[pos + 2], data[pos + 3]]);
         pos += 4;
@@ -293,19 +300,28 @@ fn parse_witness(data: &[u8]) -> Result<Vec<Fr>, String> {
             data[pos + 5],
             data[pos + 6],
             data[pos + 7],
-        ]) as usize;
+        ]);
         pos += 8;
 
-        let section_end = pos + section_len;
+        if section_len > (data.len() - pos) as u64 {
+            return Err("Witness section runs past the end of data".to_string());
+        }
+        let section_end = pos + section_len as usize;
 
         if section_type == 1 {
             // Header section
+            if section_len < 4 {
+                return Err("Witness header section too short".to_string());
+            }
             n8 = u32::from_le_bytes([data[pos], data[pos + 1], data[pos + 2], data[pos + 3]])
                 as usize;
         } else if section_type == 2 {
             // Witness values section - contains raw witness data (field_size * n_witness bytes)
             // Read all witness values directly
-            while pos + n8 <= section_end {
+            if n8 == 0 {
+                return Err("Witness data without a field size".to_string());
+            }
+            while n8 <= section_end - pos {
                 let mut bytes = vec![0u8; 32];
                 let copy_len = n8.min(32);
                 bytes[..copy_len].copy_from_slice(&data[pos..pos + copy_len]);
-- 
2.43.0


From 9b77c6040e5139cae94e895599b91714c6e80456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:20 +0000
Subject: [PATCH 09/14] fix: check section sizes before loading a witness file

A damaged section size made the loader allocate that many bytes, up to an
abort, and a header size that did not match its content desynchronised it.
---
 packages/zkenc-cli/src/witness.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/zkenc-cli/src/witness.rs b/packages/zkenc-cli/src/witness.rs
index d6ee093..bf6a811 100644
--- a/packages/zkenc-cli/src/witness.rs
+++ b/packages/zkenc-cli/src/witness.rs
@@ -12,7 +12,7 @@ use anyhow::{bail, Context, Result};
 use ark_ff::PrimeField;
 use std::collections::HashMap;
 use std::fs::File;
-use std::io::{BufReader, Read};
+use std::io::{BufReader, Read, Seek};
 
 const WTNS_MAGIC: &[u8; 4] = b"wtns";
 
@@ -32,6 +32,7 @@ impl WitnessFile {
     pub fn from_file(path: &str) -> Result<Self> {
         let file =
             File::open(path).with_context(|| format!("Failed to open witness file: {}", path))?;
+        let file_size = file.metadata()?.len();
         let mut reader = BufReader::new(file);
 
         // Read magic
@@ -58,11 +59,17 @@ impl WitnessFile {
         for _ in 0..n_sections {
             let section_type = read_u32_le(&mut reader)?;
             let section_size = read_u64_le(&mut reader)?;
+            if section_size > file_size.saturating_sub(reader.stream_position()?) {
+                bail!("Section {} runs past the end of the file", section_type);
+            }
 
             match section_type {
                 1 => {
                     // Header section
                     let field_size = read_u32_le(&mut reader)?;
+                    if section_size != 8 + field_size as u64 {
+                        bail!("Invalid header section size: {}", section_size);
+                    }
 
                     // Read prime modulus
                     prime = vec![0u8; field_size as usize];
-- 
2.43.0


From 40bd9e5c83cb6f48d84757be7168b9d2f3c0a866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 10/14] fix: compare recorded public inputs with instance
 values only in decap

A ciphertext recording more public inputs than the circuit has was compared
with, and accepted on, the private witness values that follow them.
---
 packages/zkenc-core/src/algorithm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/zkenc-core/src/algorithm.rs b/packages/zkenc-core/src/algorithm.rs
index 2ad023b..f4be52f 100644
--- a/packages/zkenc-core/src/algorithm.rs
+++ b/packages/zkenc-core/src/algorithm.rs
@@ -256,6 +256,8 @@ where
         .witness_assignment()
         .map_err(|e| Error::SynthesisError(format!("{:?}", e)))?;
 
+    let num_instance = full_assignment_slice.len();
+
     // Combine public inputs and witness into full assignment
     let mut full_assignment = full_assignment_slice.to_vec();
     full_assignment.extend_from_slice(witness_assignment);
@@ -268,7 +270,7 @@ where
     );
 
     // Verify public inputs match ciphertext
-    if full_assignment.len() < 1 + ciphertext.public_inputs.len() {
+    if num_instance < 1 + ciphertext.public_inputs.len() {
         return Err(Error::InvalidPublicInputs);
     }
     for (i, expected) in ciphertext.public_inputs.iter().enumerate() {
-- 
2.43.0


From fcbe0f9e8ff6924a3a980af10a8b330f3970d23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:16 +0000
Subject: [PATCH 11/14] fix: refuse container parts whose length does not fit
 the 32-bit field

---
 packages/zkenc-cli/src/commands.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/zkenc-cli/src/commands.rs b/packages/zkenc-cli/src/commands.rs
index da477f2..dadd80f 100644
--- a/packages/zkenc-cli/src/commands.rs
+++ b/packages/zkenc-cli/src/commands.rs
@@ -257,14 +257,18 @@ pub fn encrypt_command(
     combined.push(flag);
 
     // Write witness ciphertext length (big-endian u32)
-    combined.extend_from_slice(&(witness_ct_bytes.len() as u32).to_be_bytes());
+    let witness_len =
+        u32::try_from(witness_ct_bytes.len()).context("Witness ciphertext is too large")?;
+    combined.extend_from_slice(&witness_len.to_be_bytes());
 
     // Write witness ciphertext
     combined.extend_from_slice(&witness_ct_bytes);
 
     // Write public input if included
     if include_public_input {
-        combined.extend_from_slice(&(public_input_bytes.len() as u32).to_be_bytes());
+        let public_len =
+            u32::try_from(public_input_bytes.len()).context("Public input is too large")?;
+        combined.extend_from_slice(&public_len.to_be_bytes());
         combined.extend_from_slice(&public_input_bytes);
     }
 
-- 
2.43.0


From ab3e8856261f3aa003e028640b88719d633e72e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:16 +0000
Subject: [PATCH 12/14] fix: refuse JSON inputs that name one input signal
 twice

---
 packages/zkenc-cli/src/commands.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/zkenc-cli/src/commands.rs b/packages/zkenc-cli/src/commands.rs
index dadd80f..5d9c283 100644
--- a/packages/zkenc-cli/src/commands.rs
+++ b/packages/zkenc-cli/src/commands.rs
@@ -481,14 +481,18 @@ fn parse_circuit_inputs_with_keys(json_str: &str) -> Result<HashMap<String, Fr>>
                 } else {
                     anyhow::bail!("Unsupported number format");
                 };
-                result.insert(key.to_string(), num);
+                if result.insert(key.to_string(), num).is_some() {
+                    anyhow::bail!("Input signal {} is given more than once", key);
+                }
             }
             serde_json::Value::String(s) => {
                 // Parse as field element using FromStr
                 let field_elem = Fr::from_str(s).map_err(|_| {
                     anyhow::anyhow!("Failed to parse string as field element: {}", s)
                 })?;
-                result.insert(key.to_string(), field_elem);
+                if result.insert(key.to_string(), field_elem).is_some() {
+                    anyhow::bail!("Input signal {} is given more than once", key);
+                }
             }
             serde_json::Value::Array(arr) => {
                 for (idx, item) in arr.iter().enumerate() {
-- 
2.43.0


From 1a039233036e4dd44adfe9abcce1415e6702bfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:10 +0000
Subject: [PATCH 13/14] fix: JavaScript encap failed with a RangeError for
 large public inputs

The highest wire was found by spreading all wire numbers into one Math.max
call, which overflows the stack from about 125000 values on.
---
 packages/zkenc-js/src/zkenc.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/zkenc-js/src/zkenc.ts b/packages/zkenc-js/src/zkenc.ts
index 4830b81..8c608dc 100644
--- a/packages/zkenc-js/src/zkenc.ts
+++ b/packages/zkenc-js/src/zkenc.ts
@@ -92,7 +92,10 @@ export async function encap(
   const wireValues = mapInputsToWires(publicInputs, inputSignals);
 
   // Find the maximum wire ID to determine public input range
-  const maxWireId = Math.max(...Array.from(wireValues.keys()));
+  let maxWireId = 0;
+  for (const wireId of wireValues.keys()) {
+    maxWireId = Math.max(maxWireId, wireId);
+  }
 
   // Create witness array: wire 0 = 1 (constant), then public input wires
   const witnessArray: bigint[] = [1n]; // Wire 0 is always 1
-- 
2.43.0


From a944ba7605c559fc964d3ab82ced20decbf4d5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:27 +0000
Subject: [PATCH 14/14] fix: encap and decap gave -c to two options, which clap
 refuses with a panic

Both --circuit and --ciphertext derived the short name -c. clap's check of the
command panics on that in every debug build, for all four subcommands' arguments
of 'zkenc encap' and 'zkenc decap'. The documentation uses -c for the circuit and
the long name for the ciphertext.
---
 packages/zkenc-cli/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/zkenc-cli/src/main.rs b/packages/zkenc-cli/src/main.rs
index c6f711f..9d46532 100644
--- a/packages/zkenc-cli/src/main.rs
+++ b/packages/zkenc-cli/src/main.rs
@@ -33,7 +33,7 @@ enum Commands {
         #[arg(short, long)]
         input: String,
         /// Output ciphertext file path
-        #[arg(short, long)]
+        #[arg(long)]
         ciphertext: String,
         /// Output key file path
         #[arg(short, long)]
@@ -48,7 +48,7 @@ enum Commands {
         #[arg(short, long)]
         witness: String,
         /// Ciphertext file path
-        #[arg(short, long)]
+        #[arg(long)]
         ciphertext: String,
         /// Output key file path
         #[arg(short, long)]
-- 
2.43.0

