From b278962f9bb631d12a7a58060538e56e03dc39dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:00 +0000
Subject: [PATCH 01/35] fix: convert zero, unnormalised and tiny IBM floats
 correctly

from_IBM_to_float returned 0.5 for a zero fraction, dropped the leading bits of
unnormalised fractions, shifted by more than the width of the type for values
below the smallest denormal and lost the carry into the smallest normal.
---
 src/utils/encoding/number_encoding.cc | 30 ++++++++++++++++-----------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/utils/encoding/number_encoding.cc b/src/utils/encoding/number_encoding.cc
index 0eaee29..d03dc5d 100644
--- a/src/utils/encoding/number_encoding.cc
+++ b/src/utils/encoding/number_encoding.cc
@@ -73,18 +73,13 @@ Float_components from_IBM(
     // bits of the fraction can be zero.
     // We therefore, need to shift it left by 8 bits, plus those leading zeros.
     //
-    // We use a sneaky trick here: we use the 3 rightmost bits of the IBM
-    // fraction as a lookup for a table listing the offsets. Interpreted as an
-    // integer, these have the values:
-    //  000 -> 0  ---> needs offset of 3
-    //  001 -> 1  ---> needs offset of 2
-    //  010 -> 2  ---> needs offset of 1
-    //  011 -> 3  ---> needs offset of 1
-    // and so on.
+    // A normalised IBM fraction has at most 3 leading zeros. Unnormalised
+    // fractions, which have more, are valid too.
     //
-    const uint32_t offsets[]         = {3, 2, 1, 1, 0, 0, 0, 0};
-    const uint32_t leading_frac_bits = frac >> 21;
-    const int32_t shift              = offsets[leading_frac_bits];
+    int32_t shift = 0;
+    while (((frac << shift) & 0x00800000) == 0) {
+        shift++;
+    }
 
     const uint32_t shifted_frac = frac << (8 + shift);
 
@@ -106,6 +101,10 @@ Float_components from_IBM(
 /// @returns The result of \c value >> \c shift, with round-half-even applied.
 static uint32_t rshift_with_rounding(uint32_t value, uint32_t shift)
 {
+    // All of `value` (at most 24 bits wide) is truncated and it's less than half.
+    if (shift > 24) {
+        return 0;
+    }
 
     // Get the part of the `value` that will be truncated. This will be the
     // last `shift` bits
@@ -169,6 +168,11 @@ float to_float(Float_components components)
     int32_t exp   = components.exponent;
     uint32_t frac = components.significand;
 
+    // A zero significand is zero, whatever the exponent.
+    if (frac == 0) {
+        exp = -127;
+    }
+
 
     // An IEEE number is of the form
     // SCCC CCCC CQQQ QQQQ QQQQ QQQQ QQQQ QQQQ
@@ -220,7 +224,9 @@ float to_float(Float_components components)
         // form 0.bbbb... rather than 1.bbbb... for regular numbers.
 
         frac = rshift_with_rounding(frac, -exp + 1);
-        exp  = 0;
+
+        // If the rounding carried into bit 24, it's the smallest normal number.
+        exp = (frac >> 23);
     }
 
     // Overflow
-- 
2.43.0


From f47b49f5797fed0dbfc3cf2c1947e41d3134cca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:12 +0000
Subject: [PATCH 02/35] fix: map characters without an equivalent to the
 substitute character

The lookup used the next larger entry of the table when there was no exact
match, so unmapped bytes turned into some other character.
---
 src/utils/encoding/character_encoding.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utils/encoding/character_encoding.cc b/src/utils/encoding/character_encoding.cc
index a9afe29..92ab880 100644
--- a/src/utils/encoding/character_encoding.cc
+++ b/src/utils/encoding/character_encoding.cc
@@ -185,7 +185,9 @@ unsigned char to_ASCII_from_EBCDIC(unsigned char ebcdic_char)
       std::begin(ebcdic_sorted_array), std::end(ebcdic_sorted_array),
       ebcdic_char, compare_ebcdic);
 
-    if (ebcdic_char_it == std::end(ebcdic_sorted_array)) {
+    if (
+      ebcdic_char_it == std::end(ebcdic_sorted_array)
+      || ebcdic_char_it->ebcdic != ebcdic_char) {
         return char_sub.ascii;
     }
     return ebcdic_char_it->ascii;
@@ -203,7 +205,9 @@ unsigned char to_EBCDIC_from_ASCII(unsigned char ascii_char)
       std::begin(ascii_sorted_array), std::end(ascii_sorted_array), ascii_char,
       compare_ascii);
 
-    if (ascii_char_it == std::end(ascii_sorted_array)) {
+    if (
+      ascii_char_it == std::end(ascii_sorted_array)
+      || ascii_char_it->ascii != ascii_char) {
         return char_sub.ebcdic;
     }
     return ascii_char_it->ebcdic;
-- 
2.43.0


From dbff329ed3e5f74644a5628d9dd09029c1dd4390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:12 +0000
Subject: [PATCH 03/35] fix: convert the stored bytes of IBM-format trace
 samples

The sample was first converted to a double, and the first four bytes of that
were interpreted as the IBM float.
---
 src/ReadSEGY.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ReadSEGY.cc b/src/ReadSEGY.cc
index 4a76b1d..91bbf37 100644
--- a/src/ReadSEGY.cc
+++ b/src/ReadSEGY.cc
@@ -185,10 +185,8 @@ void readTraceT(
         // Convert trace values from SEGY floating point format to host format
         if (number_format == SEGYNumberFormat::IBM) {
             for (size_t i = 0; i < ns * sz; i++) {
-                const exseis::utils::Floating_point be_trc_i = trc[i];
-
                 const unsigned char* be_trc_i_bytes =
-                  reinterpret_cast<const unsigned char*>(&be_trc_i);
+                  &tbuf[i * sizeof(exseis::utils::Trace_value)];
 
                 std::array<unsigned char, 4> be_bytes_array = {
                   {be_trc_i_bytes[0], be_trc_i_bytes[1], be_trc_i_bytes[2],
-- 
2.43.0


From a3f24f7f1c42ec6710981524260a1bd25b72fb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:12 +0000
Subject: [PATCH 04/35] fix: read no trace when the request starts beyond the
 last one

nt - offset wrapped around for an offset larger than the number of traces.
---
 src/ReadSEGY.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ReadSEGY.cc b/src/ReadSEGY.cc
index 91bbf37..433f204 100644
--- a/src/ReadSEGY.cc
+++ b/src/ReadSEGY.cc
@@ -214,7 +214,8 @@ void ReadSEGY::readTrace(
   Param* prm,
   const size_t skip) const
 {
-    size_t ntz = ((sz == 0) ? sz : (offset + sz > nt ? nt - offset : sz));
+    const size_t remaining = (offset < nt ? nt - offset : 0LU);
+    const size_t ntz       = (sz < remaining ? sz : remaining);
     if (offset >= nt && sz != 0) {
         // Nothing to be read.
         piol->log->record(
-- 
2.43.0


From c17bfd27c37c9c6dbfed43d416a0db5f44012d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:47 +0000
Subject: [PATCH 05/35] fix: read unordered lists without parameters or without
 traces

readTraceNonMonotonic dereferenced PIOL_PARAM_NULL, its default argument, and
read the first element of an empty list.
---
 src/ReadSEGY.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ReadSEGY.cc b/src/ReadSEGY.cc
index 433f204..919039f 100644
--- a/src/ReadSEGY.cc
+++ b/src/ReadSEGY.cc
@@ -249,14 +249,15 @@ void ReadSEGY::readTraceNonMonotonic(
     // Sort the initial offset and make a new offset without duplicates
     auto idx = getSortIndex(sz, offset);
     std::vector<size_t> nodups;
-    nodups.push_back(offset[idx[0]]);
-    for (size_t j = 1; j < sz; j++) {
-        if (offset[idx[j - 1]] != offset[idx[j]]) {
+    for (size_t j = 0; j < sz; j++) {
+        if (j == 0 || offset[idx[j - 1]] != offset[idx[j]]) {
             nodups.push_back(offset[idx[j]]);
         }
     }
 
-    Param sprm(prm->r, (prm != PIOL_PARAM_NULL ? nodups.size() : 0LU));
+    Param sprm(
+      (prm != PIOL_PARAM_NULL ? prm->r : std::make_shared<Rule>(true, false)),
+      (prm != PIOL_PARAM_NULL ? nodups.size() : 0LU));
     std::vector<exseis::utils::Trace_value> strc(
       ns * (trc != TRACE_NULL ? nodups.size() : 0LU));
 
-- 
2.43.0


From babec580e6411e24861780c75d01d15c28bcc5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:30 +0000
Subject: [PATCH 06/35] fix: locate header fields of partial-extent rules in
 the full trace header

Trace headers are always buffered with their full 240 bytes, but rules made
with full=false addressed them by their own extent, one byte off and with the
wrong stride.
---
 src/segy_utils.cc | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/segy_utils.cc b/src/segy_utils.cc
index a501e12..d9687c4 100644
--- a/src/segy_utils.cc
+++ b/src/segy_utils.cc
@@ -20,8 +20,7 @@ void insertParam(
         return;
     }
 
-    auto r       = prm->r;
-    size_t start = r->start;
+    auto r = prm->r;
 
     if (r->numCopy != 0) {
         if (stride == 0) {
@@ -40,7 +39,7 @@ void insertParam(
     }
 
     for (size_t i = 0; i < sz; i++) {
-        unsigned char* md = &buf[(r->extent() + stride) * i];
+        unsigned char* md = &buf[(SEGY_utils::getMDSz() + stride) * i];
 
 // Compiler defects
 #if defined(__INTEL_COMPILER) || __GNUC__ < 6
@@ -54,7 +53,7 @@ void insertParam(
         for (const auto v : r->translate) {
 
             const auto t     = v.second;
-            const size_t loc = t->loc - start - 1LU;
+            const size_t loc = t->loc - 1LU;
 
             switch (t->type()) {
 
@@ -108,7 +107,7 @@ void insertParam(
             const auto be = to_big_endian(s.second);
 
             std::copy(
-              std::begin(be), std::end(be), &md[size_t(s.first) - start - 1LU]);
+              std::begin(be), std::end(be), &md[size_t(s.first) - 1LU]);
         }
 
         for (size_t j = 0; j < rule.size(); j++) {
@@ -119,7 +118,7 @@ void insertParam(
               prm->f[(i + skip) * r->numFloat + rule[j]->num] / gscale)));
 
             std::copy(
-              std::begin(be), std::end(be), &md[rule[j]->loc - start - 1LU]);
+              std::begin(be), std::end(be), &md[rule[j]->loc - 1LU]);
         }
     }
 }
@@ -151,20 +150,19 @@ void extractParam(
 
     for (size_t i = 0; i < sz; i++) {
 
-        const unsigned char* md = &buf[(r->extent() + stride) * i];
+        const unsigned char* md = &buf[(SEGY_utils::getMDSz() + stride) * i];
 
         // Loop through each rule and extract data
         for (const auto v : r->translate) {
 
             const auto t = v.second;
-            size_t loc   = t->loc - r->start - 1LU;
+            size_t loc   = t->loc - 1LU;
 
             switch (t->type()) {
                 case RuleEntry::MdType::Float: {
 
                     const size_t scalar_offset =
-                      dynamic_cast<SEGYFloatRuleEntry*>(t)->scalLoc - r->start
-                      - 1LU;
+                      dynamic_cast<SEGYFloatRuleEntry*>(t)->scalLoc - 1LU;
 
                     const auto parsed_scalar =
                       parse_scalar(from_big_endian<int16_t>(
-- 
2.43.0


From 2c45e03bec119709ddd0c641d0f420340fce7451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:56 +0000
Subject: [PATCH 07/35] fix: keep rule sets consistent after a failed lookup, a
 copy rule or the last removal

Looking up a parameter without a rule inserted a null entry, which the next
use of the rule dereferenced; adding a copy rule left a stale extent; the
extent of a rule set without header parameters underflowed.
---
 src/Rule.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Rule.cc b/src/Rule.cc
index ad9ac23..2fb14a9 100644
--- a/src/Rule.cc
+++ b/src/Rule.cc
@@ -249,6 +249,11 @@ size_t Rule::extent(void)
             }
         }
 
+        // No rule stores anything in the header
+        if (start > end) {
+            start = end;
+        }
+
         flag.badextent = false;
     }
 
@@ -307,6 +312,8 @@ void Rule::addCopy(void)
     if (numCopy == 0) {
         translate[PIOL_META_COPY] = new SEGYCopyRuleEntry();
         numCopy++;
+
+        flag.badextent = (!flag.fullextent);
     }
 }
 
@@ -357,7 +364,8 @@ void Rule::rmRule(Meta m)
 
 RuleEntry* Rule::getEntry(Meta entry)
 {
-    return translate[entry];
+    auto ent = translate.find(entry);
+    return ent != translate.end() ? ent->second : nullptr;
 }
 
 size_t Rule::memUsage(void) const
-- 
2.43.0


From 7a9b7fe154dd1098a0216687b756b215ba1a7936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:56 +0000
Subject: [PATCH 08/35] fix: getting or setting a parameter without a rule does
 nothing

Reading parameters with a rule set from which the trace number had been
removed dereferenced a null rule entry.
---
 include/ExSeisDat/PIOL/param_utils.hh | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/ExSeisDat/PIOL/param_utils.hh b/include/ExSeisDat/PIOL/param_utils.hh
index aa9a4cd..0b391bd 100644
--- a/include/ExSeisDat/PIOL/param_utils.hh
+++ b/include/ExSeisDat/PIOL/param_utils.hh
@@ -30,6 +30,12 @@ T getPrm(size_t i, Meta entry, const Param* prm)
 {
     Rule* r       = prm->r.get();
     RuleEntry* id = r->getEntry(entry);
+
+    // There is no value without a rule for it
+    if (id == nullptr) {
+        return T(0);
+    }
+
     switch (id->type()) {
         case RuleEntry::MdType::Float:
             return T(prm->f[r->numFloat * i + id->num]);
@@ -64,6 +70,11 @@ void setPrm(size_t i, Meta entry, T ret, Param* prm)
     Rule* r       = prm->r.get();
     RuleEntry* id = r->getEntry(entry);
 
+    // There is nowhere to store a value without a rule for it
+    if (id == nullptr) {
+        return;
+    }
+
     switch (id->type()) {
         case RuleEntry::MdType::Float:
             prm->f[r->numFloat * i + id->num] = ret;
-- 
2.43.0


From c94b368ac949560540be9e89e67a5f321b3f9426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:56 +0000
Subject: [PATCH 09/35] fix: writing no traces does not extend the file

---
 src/WriteSEGY.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/WriteSEGY.cc b/src/WriteSEGY.cc
index 4852eb7..e4da398 100644
--- a/src/WriteSEGY.cc
+++ b/src/WriteSEGY.cc
@@ -291,7 +291,9 @@ void WriteSEGY::writeTrace(
 
     writeTraceT(obj.get(), ns, offset, sz, trc, prm, skip);
     state.stalent = true;
-    nt            = std::max(offset + sz, nt);
+    if (sz != 0) {
+        nt = std::max(offset + sz, nt);
+    }
 }
 
 void WriteSEGY::writeTraceNonContiguous(
-- 
2.43.0


From c26e1cf9c202e2928a169ed5aa9b839045f59d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:05 +0000
Subject: [PATCH 10/35] fix: choose a coordinate scale with which every value
 fits its field

---
 src/segy_utils.cc | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/segy_utils.cc b/src/segy_utils.cc
index d9687c4..b1b4ab8 100644
--- a/src/segy_utils.cc
+++ b/src/segy_utils.cc
@@ -7,12 +7,34 @@
 #include "ExSeisDat/PIOL/segy_utils.hh"
 #include "ExSeisDat/utils/encoding/number_encoding.hh"
 
+#include <cmath>
+#include <limits>
+
 using namespace exseis::utils;
 
 namespace exseis {
 namespace PIOL {
 namespace SEGY_utils {
 
+// The smallest scale, not smaller than the given one, with which the value fits
+// in a 32-bit header field.
+static int16_t fit_scalar(exseis::utils::Floating_point val, int16_t scale)
+{
+    constexpr int16_t max_scale = 10000;
+
+    const auto overflows = [val](int16_t s) {
+        const auto scaled = std::round(val / parse_scalar(s));
+        return scaled < std::numeric_limits<int32_t>::min()
+               || scaled > std::numeric_limits<int32_t>::max();
+    };
+
+    while (scale < max_scale && overflows(scale)) {
+        scale = (scale < -10 ? scale / 10 : scale < 1 ? 1 : scale * 10);
+    }
+
+    return scale;
+}
+
 void insertParam(
   size_t sz, const Param* prm, unsigned char* buf, size_t stride, size_t skip)
 {
@@ -102,6 +124,13 @@ void insertParam(
             }
         }
 
+        // Values that share a scale can need different ones, so make sure that
+        // every one of them fits with the scale chosen.
+        for (const auto& t : rule) {
+            auto& s = scal[static_cast<Tr>(t->scalLoc)];
+            s = fit_scalar(prm->f[(i + skip) * r->numFloat + t->num], s);
+        }
+
         // Finish off the floats. Floats are inherently annoying in SEG-Y
         for (const auto& s : scal) {
             const auto be = to_big_endian(s.second);
-- 
2.43.0


From 8af13e2fe791990728a9bf3b0bc7c9fdce0b60eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:23 +0000
Subject: [PATCH 11/35] fix: report every failed call of strided and listed
 transfers and stay collective

---
 src/DataMPIIO.cc | 74 ++++++++++++++++++++++++++++++++----------------
 1 file changed, 50 insertions(+), 24 deletions(-)

diff --git a/src/DataMPIIO.cc b/src/DataMPIIO.cc
index 1730e95..10fa489 100644
--- a/src/DataMPIIO.cc
+++ b/src/DataMPIIO.cc
@@ -154,24 +154,29 @@ int iol(
   MPI_Status* stat)
 {
     // Set a view so that MPI_File_read... functions only see contiguous data.
-    MPI_Datatype type;
-    int err = randBlockView(file, info, chunk, bsz, offset, &type);
-    if (err != MPI_SUCCESS) {
-        return err;
-    }
+    MPI_Datatype type = MPI_DATATYPE_NULL;
+    const int view_err =
+      randBlockView(file, info, chunk, bsz, offset, &type);
 
-    fn(file, 0, d, chunk * bsz, MPI_CHAR, stat);
-    if (err != MPI_SUCCESS) {
-        return err;
-    }
+    // After an error transfer nothing, but keep taking part in the collective
+    // calls the other processes are making.
+    const int io_err = fn(
+      file, 0, d, (view_err == MPI_SUCCESS ? chunk * bsz : 0), MPI_CHAR, stat);
 
     // Reset the view.
-    err = MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
-    if (err != MPI_SUCCESS) {
-        return err;
+    const int reset_err =
+      MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
+
+    const int free_err =
+      (type != MPI_DATATYPE_NULL ? MPI_Type_free(&type) : MPI_SUCCESS);
+
+    for (const int err : {view_err, io_err, reset_err, free_err}) {
+        if (err != MPI_SUCCESS) {
+            return err;
+        }
     }
 
-    return MPI_Type_free(&type);
+    return MPI_SUCCESS;
 }
 
 /////////////////////////////    Class functions    ////////////////////////////
@@ -397,7 +402,7 @@ void DataMPIIO::readv(
     }
 
     // Set a view so that MPI_File_read... functions only see contiguous data.
-    MPI_Datatype view;
+    MPI_Datatype view = MPI_DATATYPE_NULL;
     int err = strideView(file, info, offset, bsz, osz, nb, &view);
     if (err != MPI_SUCCESS) {
         log_->record(
@@ -407,11 +412,22 @@ void DataMPIIO::readv(
           PIOL_VERBOSITY_NONE);
     }
 
-    read(0LU, nb * bsz, d);
+    // Without the view there is no telling which bytes would be accessed.
+    read(0LU, (err == MPI_SUCCESS ? nb * bsz : 0), d);
 
     // Reset the view.
-    MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
-    MPI_Type_free(&view);
+    err = MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
+    if (err != MPI_SUCCESS) {
+        log_->record(
+          name_, Logger::Layer::Data, Logger::Status::Error,
+          "Failed to reset the view: "s
+            + exseis::utils::MPI_error_to_string(err),
+          PIOL_VERBOSITY_NONE);
+    }
+
+    if (view != MPI_DATATYPE_NULL) {
+        MPI_Type_free(&view);
+    }
 }
 
 void DataMPIIO::read(
@@ -507,14 +523,13 @@ void DataMPIIO::listIO(
           fn, file, info, bsz, chunk,
           reinterpret_cast<const MPI_Aint*>(&offset[i]), &d[i * bsz], &stat);
 
-        // Log and break on failure
+        // Log a failure and carry on, so that every process makes the same
+        // number of collective calls.
         if (err != MPI_SUCCESS) {
             log_->record(
               name_, Logger::Layer::Data, Logger::Status::Error,
               msg + exseis::utils::MPI_error_to_string(err, &stat),
               PIOL_VERBOSITY_NONE);
-
-            break;
         }
     }
 
@@ -565,7 +580,7 @@ void DataMPIIO::writev(
     }
 
     // Set a view so that MPI_File_read... functions only see contiguous data.
-    MPI_Datatype view;
+    MPI_Datatype view = MPI_DATATYPE_NULL;
     int err = strideView(file, info, offset, bsz, osz, nb, &view);
 
     if (err != MPI_SUCCESS) {
@@ -576,11 +591,22 @@ void DataMPIIO::writev(
           PIOL_VERBOSITY_NONE);
     }
 
-    write(0LU, nb * bsz, d);
+    // Without the view there is no telling which bytes would be accessed.
+    write(0LU, (err == MPI_SUCCESS ? nb * bsz : 0), d);
 
     // Reset the view.
-    MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
-    MPI_Type_free(&view);
+    err = MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);
+    if (err != MPI_SUCCESS) {
+        log_->record(
+          name_, Logger::Layer::Data, Logger::Status::Error,
+          "Failed to reset the view: "s
+            + exseis::utils::MPI_error_to_string(err),
+          PIOL_VERBOSITY_NONE);
+    }
+
+    if (view != MPI_DATATYPE_NULL) {
+        MPI_Type_free(&view);
+    }
 }
 
 void DataMPIIO::write(size_t offset, size_t sz, const unsigned char* d) const
-- 
2.43.0


From 52d46768b27600683c8c17db4080cb0f38663610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:34 +0000
Subject: [PATCH 12/35] fix: compute the running offset over the communicator
 of the library

---
 src/CommunicatorMPI.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CommunicatorMPI.cc b/src/CommunicatorMPI.cc
index 6427fd7..e4fd6aa 100644
--- a/src/CommunicatorMPI.cc
+++ b/src/CommunicatorMPI.cc
@@ -227,7 +227,7 @@ size_t CommunicatorMPI::offset(size_t val)
     size_t offset = 0LU;
     MPI_Exscan(
       &val, &offset, 1LU, exseis::utils::MPI_type<size_t>(), MPI_SUM,
-      MPI_COMM_WORLD);
+      comm);
     return (rank == 0 ? 0LU : offset);
 }
 
-- 
2.43.0


From 49d54f7cd11ccc973e705e749cc78e9ab0a82921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:37 +0000
Subject: [PATCH 13/35] fix: size, bounds and locking of the distributed vector

---
 .../utils/mpi/MPI_Distributed_vector.hh       | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh b/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
index f9b88c3..46b2f31 100644
--- a/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
+++ b/include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh
@@ -88,7 +88,8 @@ MPI_Distributed_vector<T>::Model::Model(MPI_Aint global_size, MPI_Comm comm) :
       block_decomposition(global_size, num_ranks, rank);
     const size_t local_size = decomposition.local_size;
 
-    MPI_Win_allocate(local_size, sizeof(T), MPI_INFO_NULL, comm, &data, &win);
+    MPI_Win_allocate(
+      local_size * sizeof(T), sizeof(T), MPI_INFO_NULL, comm, &data, &win);
 }
 
 template<typename T>
@@ -101,7 +102,7 @@ MPI_Distributed_vector<T>::Model::~Model()
 template<typename T>
 void MPI_Distributed_vector<T>::Model::set(size_t i, const T& val)
 {
-    if (i > global_size) {
+    if (i >= global_size) {
         return;
     }
 
@@ -115,13 +116,16 @@ void MPI_Distributed_vector<T>::Model::set(size_t i, const T& val)
       block_decomposition_location(global_size, num_ranks, i);
 
     // Set the value locally or remotely.
-    assert(rank > 0);
+    assert(rank >= 0);
     if (location.rank == static_cast<size_t>(rank)) {
+        // Other processes may be accessing this element at the same time.
+        MPI_Win_lock(MPI_LOCK_EXCLUSIVE, location.rank, 0, win);
         data[location.local_index] = val;
+        MPI_Win_unlock(location.rank, win);
     }
     else {
         // Lock the window, set the remote data, and unlock.
-        MPI_Win_lock(MPI_LOCK_EXCLUSIVE, location.rank, MPI_MODE_NOCHECK, win);
+        MPI_Win_lock(MPI_LOCK_EXCLUSIVE, location.rank, 0, win);
 
         const size_t T_size = sizeof(T);
         MPI_Put(
@@ -135,7 +139,7 @@ void MPI_Distributed_vector<T>::Model::set(size_t i, const T& val)
 template<typename T>
 T MPI_Distributed_vector<T>::Model::get(size_t i) const
 {
-    if (i > global_size) {
+    if (i >= global_size) {
         return T();
     }
 
@@ -148,14 +152,18 @@ T MPI_Distributed_vector<T>::Model::get(size_t i) const
     auto location = block_decomposition_location(global_size, num_ranks, i);
 
     // Get the value locally or remotely.
-    assert(rank > 0);
+    assert(rank >= 0);
     if (location.rank == static_cast<size_t>(rank)) {
-        return data[location.local_index];
+        MPI_Win_lock(MPI_LOCK_SHARED, location.rank, 0, win);
+        const T val = data[location.local_index];
+        MPI_Win_unlock(location.rank, win);
+
+        return val;
     }
     else {
         T val;
 
-        MPI_Win_lock(MPI_LOCK_SHARED, location.rank, MPI_MODE_NOCHECK, win);
+        MPI_Win_lock(MPI_LOCK_SHARED, location.rank, 0, win);
 
         const size_t T_size = sizeof(T);
         MPI_Get(
-- 
2.43.0


From 3435c7243a680fdf937b6ea0c163d1629c3603d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:45 +0000
Subject: [PATCH 14/35] fix: build gathers correctly on the last process and
 over empty processes

---
 src/gather.cc | 64 +++++++++++++++++++++++++++++----------------------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/src/gather.cc b/src/gather.cc
index 291a75c..9e9c4eb 100644
--- a/src/gather.cc
+++ b/src/gather.cc
@@ -31,49 +31,54 @@ static utils::Distributed_vector<Gather_info> getGathers(
     size_t numRank = piol->comm->getNumRank();
     std::vector<Gather_info> lline;
 
-    exseis::utils::Integer ill =
-      param_utils::getPrm<exseis::utils::Integer>(0LU, PIOL_META_il, prm);
-    exseis::utils::Integer xll =
-      param_utils::getPrm<exseis::utils::Integer>(0LU, PIOL_META_xl, prm);
-    lline.push_back({1LU, ill, xll});
-
-    for (size_t i = 1; i < prm->size(); i++) {
+    for (size_t i = 0; i < prm->size(); i++) {
         exseis::utils::Integer il =
           param_utils::getPrm<exseis::utils::Integer>(i, PIOL_META_il, prm);
         exseis::utils::Integer xl =
           param_utils::getPrm<exseis::utils::Integer>(i, PIOL_META_xl, prm);
 
-        if (il != ill || xl != xll) {
+        if (
+          lline.empty() || il != lline.back().inline_
+          || xl != lline.back().crossline) {
             lline.push_back({0LU, il, xl});
-            ill = il;
-            xll = xl;
         }
         lline.back().num_traces += 1;
     }
 
-    auto trcnum = piol->comm->gather<size_t>(lline.front().num_traces);
-    auto ilb    = piol->comm->gather<size_t>(lline.back().inline_);
-    auto xlb    = piol->comm->gather<size_t>(lline.back().crossline);
-    auto ilf    = piol->comm->gather<size_t>(lline.front().inline_);
-    auto xlf    = piol->comm->gather<size_t>(lline.front().crossline);
+    // A process without traces has no gathers at all
+    const Gather_info first = (lline.empty() ? Gather_info() : lline.front());
+    const Gather_info last  = (lline.empty() ? Gather_info() : lline.back());
 
-    size_t start = 0;
-    if (
-      rank != 0 && ilb[rank - 1LU] == ilf[rank]
-      && xlb[rank - 1LU] == xlf[rank]) {
+    auto numline = piol->comm->gather<size_t>(lline.size());
+    auto trcnum  = piol->comm->gather<size_t>(first.num_traces);
+    auto ilb     = piol->comm->gather<size_t>(last.inline_);
+    auto xlb     = piol->comm->gather<size_t>(last.crossline);
+    auto ilf     = piol->comm->gather<size_t>(first.inline_);
+    auto xlf     = piol->comm->gather<size_t>(first.crossline);
 
-        start = 1;
+    // The first gather continues that of the previous process with any traces
+    size_t start = 0;
+    for (size_t i = rank; i > 0 && !lline.empty(); i--) {
+        if (numline[i - 1LU] != 0) {
+            if (ilb[i - 1LU] == ilf[rank] && xlb[i - 1LU] == xlf[rank]) {
+                start = 1;
+            }
+            break;
+        }
     }
 
+    // The last gather may continue on the next processes
     if (start < lline.size()) {
-        if (ilf[rank + 1LU] == ilb[rank] && xlf[rank + 1LU] == xlb[rank]) {
-            for (size_t i = rank + 1LU; i < numRank; i++) {
-                if (ilb[rank] == ilf[i] && xlb[rank] == xlf[i]) {
-                    lline.back().num_traces += trcnum[i];
-                }
-                else {
-                    break;
-                }
+        for (size_t i = rank + 1LU; i < numRank; i++) {
+            if (numline[i] == 0) {
+                continue;
+            }
+            if (ilb[rank] != ilf[i] || xlb[rank] != xlf[i]) {
+                break;
+            }
+            lline.back().num_traces += trcnum[i];
+            if (numline[i] > 1) {
+                break;
             }
         }
     }
@@ -88,6 +93,9 @@ static utils::Distributed_vector<Gather_info> getGathers(
         line.set(i + offset, lline[i + start]);
     }
 
+    // Wait for the gathers of every process
+    piol->comm->barrier();
+
     return std::move(line);
 }
 
-- 
2.43.0


From 13a2f3a301fce007456db36bce9013008c4c4ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:32 +0000
Subject: [PATCH 15/35] fix: compare the offsets of the trace headers as signed
 numbers when sorting

---
 src/sort.cc | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/sort.cc b/src/sort.cc
index c9a3a02..5a7e543 100644
--- a/src/sort.cc
+++ b/src/sort.cc
@@ -148,7 +148,8 @@ static bool lessSrcOff(const Param* prm, const size_t i, const size_t j)
               i, PIOL_META_yRcv, prm);
             auto off1 =
               (CalcOff ? off(e1sx, e1sy, e1rx, e1ry) :
-                         param_utils::getPrm<size_t>(i, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                           i, PIOL_META_Offset, prm));
 
             auto e2rx = param_utils::getPrm<exseis::utils::Floating_point>(
               j, PIOL_META_xRcv, prm);
@@ -156,7 +157,8 @@ static bool lessSrcOff(const Param* prm, const size_t i, const size_t j)
               j, PIOL_META_yRcv, prm);
             auto off2 =
               (CalcOff ? off(e2sx, e2sy, e2rx, e2ry) :
-                         param_utils::getPrm<size_t>(j, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                           j, PIOL_META_Offset, prm));
 
             return (
               off1 < off2
@@ -208,7 +210,8 @@ static bool lessRcvOff(const Param* prm, const size_t i, const size_t j)
               i, PIOL_META_ySrc, prm);
             auto off1 =
               (CalcOff ? off(e1sx, e1sy, e1rx, e1ry) :
-                         param_utils::getPrm<size_t>(i, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                           i, PIOL_META_Offset, prm));
 
             auto e2sx = param_utils::getPrm<exseis::utils::Floating_point>(
               j, PIOL_META_xSrc, prm);
@@ -216,7 +219,8 @@ static bool lessRcvOff(const Param* prm, const size_t i, const size_t j)
               j, PIOL_META_ySrc, prm);
             auto off2 =
               (CalcOff ? off(e2sx, e2sy, e2rx, e2ry) :
-                         param_utils::getPrm<size_t>(j, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                           j, PIOL_META_Offset, prm));
 
             return (
               off1 < off2
@@ -279,10 +283,12 @@ static bool lessLineOff(const Param* prm, const size_t i, const size_t j)
 
             auto off1 =
               (CalcOff ? off(e1sx, e1sy, e1rx, e1ry) :
-                         param_utils::getPrm<size_t>(i, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                           i, PIOL_META_Offset, prm));
             auto off2 =
               (CalcOff ? off(e2sx, e2sy, e2rx, e2ry) :
-                         param_utils::getPrm<size_t>(j, PIOL_META_Offset, prm));
+                         param_utils::getPrm<exseis::utils::Integer>(
+                           j, PIOL_META_Offset, prm));
             return (
               off1 < off2
               || (off1 == off2
@@ -319,7 +325,8 @@ static bool lessOffLine(const Param* prm, const size_t i, const size_t j)
       i, PIOL_META_yRcv, prm);
     auto off1 =
       (CalcOff ? off(e1sx, e1sy, e1rx, e1ry) :
-                 param_utils::getPrm<size_t>(i, PIOL_META_Offset, prm));
+                 param_utils::getPrm<exseis::utils::Integer>(
+                   i, PIOL_META_Offset, prm));
 
     auto e2sx = param_utils::getPrm<exseis::utils::Floating_point>(
       j, PIOL_META_xSrc, prm);
@@ -331,7 +338,8 @@ static bool lessOffLine(const Param* prm, const size_t i, const size_t j)
       j, PIOL_META_yRcv, prm);
     auto off2 =
       (CalcOff ? off(e2sx, e2sy, e2rx, e2ry) :
-                 param_utils::getPrm<size_t>(j, PIOL_META_Offset, prm));
+                 param_utils::getPrm<exseis::utils::Integer>(
+                   j, PIOL_META_Offset, prm));
 
     if (off1 < off2) {
         return true;
-- 
2.43.0


From ff32b892e2d9b413ba93736d322964c5c5ff5364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:32 +0000
Subject: [PATCH 16/35] fix: sort over all processes of the library's
 communicator with few traces and copied headers

---
 src/sort.cc | 87 ++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 59 insertions(+), 28 deletions(-)

diff --git a/src/sort.cc b/src/sort.cc
index 5a7e543..c6d757a 100644
--- a/src/sort.cc
+++ b/src/sort.cc
@@ -429,6 +429,19 @@ bool checkOrder(
 
 /**************************** Core Implementation *****************************/
 
+/*! Get the number of objects neighbouring processes exchange in each step of
+ *  the sort. At least one must be exchanged for the objects to be sorted over
+ *  all the processes.
+ *  @param[in] piol The PIOL object.
+ *  @param[in] lnt  The number of objects on the local process.
+ *  @return Return the size of the region to exchange.
+ */
+static size_t getRegionSz(ExSeisPIOL* piol, size_t lnt)
+{
+    const size_t minLnt = piol->comm->min(lnt);
+    return (minLnt < 2LU ? 0LU : std::max<size_t>(minLnt / 4LU, 1LU));
+}
+
 /*! Wait on two requests to finish. The largest and smallest rank only wait on
  *  one request.
  *  @param[in] piol The PIOL object.
@@ -493,7 +506,8 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, std::vector<T>& dat)
     // TODO: Move to the communication layer?
     if (rank) {
         int err = MPI_Irecv(
-          dat.data(), cnt, MPI_CHAR, rank - 1, 1, MPI_COMM_WORLD, &rrcv[0]);
+          dat.data(), cnt, MPI_CHAR, rank - 1, 1, piol->comm->getComm(),
+          &rrcv[0]);
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
@@ -507,7 +521,7 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, std::vector<T>& dat)
     if (rank != piol->comm->getNumRank() - 1) {
         int err = MPI_Isend(
           &dat[dat.size() - regionSz], cnt, MPI_CHAR, rank + 1, 1,
-          MPI_COMM_WORLD, &rsnd[0]);
+          piol->comm->getComm(), &rsnd[0]);
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
@@ -540,7 +554,8 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, std::vector<T>& dat)
 
     if (rank) {
         int err = MPI_Isend(
-          dat.data(), cnt, MPI_CHAR, rank - 1, 0, MPI_COMM_WORLD, &rsnd[0]);
+          dat.data(), cnt, MPI_CHAR, rank - 1, 0, piol->comm->getComm(),
+          &rsnd[0]);
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
@@ -554,7 +569,7 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, std::vector<T>& dat)
     if (rank != piol->comm->getNumRank() - 1) {
         int err = MPI_Irecv(
           &dat[dat.size() - regionSz], cnt, MPI_CHAR, rank + 1, 0,
-          MPI_COMM_WORLD, &rrcv[0]);
+          piol->comm->getComm(), &rrcv[0]);
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
@@ -635,7 +650,7 @@ void sort(
         int greduced = 1;
 
         int err = MPI_Allreduce(
-          &reduced, &greduced, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
+          &reduced, &greduced, 1, MPI_INT, MPI_SUM, piol->comm->getComm());
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
@@ -663,7 +678,7 @@ void sort(
 std::vector<size_t> sort(ExSeisPIOL* piol, std::vector<size_t> list)
 {
     const size_t lnt      = list.size();
-    const size_t regionSz = piol->comm->min(lnt) / 4LU;
+    const size_t regionSz = getRegionSz(piol, lnt);
     const size_t edge2 =
       (piol->comm->getRank() != piol->comm->getNumRank() - 1 ? regionSz : 0LU);
     const size_t offset = piol->comm->offset(lnt);
@@ -714,8 +729,8 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, Param* prm)
     Param rprm(prm->r, regionSz);
 
     size_t rank = piol->comm->getRank();
-    std::vector<MPI_Request> rsnd(4);
-    std::vector<MPI_Request> rrcv(4);
+    std::vector<MPI_Request> rsnd(5);
+    std::vector<MPI_Request> rrcv(5);
 
     // Lambda for wrapping an MPI call with logging.
     auto log_on_error = [&piol](auto mpi_function, std::string function_name) {
@@ -738,19 +753,23 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(
           MPI_Irecv, "Sort right exseis::utils::Floating_point MPI_Irecv")(
           rprm.f.data(), rprm.f.size() * sizeof(exseis::utils::Floating_point),
-          MPI_CHAR, rank - 1, 0, MPI_COMM_WORLD, &rrcv[0]);
+          MPI_CHAR, rank - 1, 0, piol->comm->getComm(), &rrcv[0]);
 
         log_on_error(MPI_Irecv, "Sort right exseis::utils::Integer MPI_Irecv")(
           rprm.i.data(), rprm.i.size() * sizeof(exseis::utils::Integer),
-          MPI_CHAR, rank - 1, 0, MPI_COMM_WORLD, &rrcv[1]);
+          MPI_CHAR, rank - 1, 0, piol->comm->getComm(), &rrcv[1]);
 
         log_on_error(MPI_Irecv, "Sort right short MPI_Irecv")(
           rprm.s.data(), rprm.s.size() * sizeof(short), MPI_CHAR, rank - 1, 0,
-          MPI_COMM_WORLD, &rrcv[2]);
+          piol->comm->getComm(), &rrcv[2]);
 
         log_on_error(MPI_Irecv, "Sort right size_t MPI_Irecv")(
           rprm.t.data(), rprm.t.size() * sizeof(size_t), MPI_CHAR, rank - 1, 0,
-          MPI_COMM_WORLD, &rrcv[3]);
+          piol->comm->getComm(), &rrcv[3]);
+
+        log_on_error(MPI_Irecv, "Sort right unsigned char MPI_Irecv")(
+          rprm.c.data(), rprm.c.size(), MPI_CHAR, rank - 1, 0,
+          piol->comm->getComm(), &rrcv[4]);
     }
 
     if (rank != piol->comm->getNumRank() - 1) {
@@ -763,19 +782,23 @@ void sendRight(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(
           MPI_Isend, "Sort right exseis::utils::Floating_point MPI_Isend")(
           sprm.f.data(), sprm.f.size() * sizeof(exseis::utils::Floating_point),
-          MPI_CHAR, rank + 1, 0, MPI_COMM_WORLD, &rsnd[0]);
+          MPI_CHAR, rank + 1, 0, piol->comm->getComm(), &rsnd[0]);
 
         log_on_error(MPI_Isend, "Sort right exseis::utils::Integer MPI_Isend")(
           sprm.i.data(), sprm.i.size() * sizeof(exseis::utils::Integer),
-          MPI_CHAR, rank + 1, 0, MPI_COMM_WORLD, &rsnd[1]);
+          MPI_CHAR, rank + 1, 0, piol->comm->getComm(), &rsnd[1]);
 
         log_on_error(MPI_Isend, "Sort right short MPI_Isend")(
           sprm.s.data(), sprm.s.size() * sizeof(short), MPI_CHAR, rank + 1, 0,
-          MPI_COMM_WORLD, &rsnd[2]);
+          piol->comm->getComm(), &rsnd[2]);
 
         log_on_error(MPI_Isend, "Sort right size_t MPI_Isend")(
           sprm.t.data(), sprm.t.size() * sizeof(size_t), MPI_CHAR, rank + 1, 0,
-          MPI_COMM_WORLD, &rsnd[3]);
+          piol->comm->getComm(), &rsnd[3]);
+
+        log_on_error(MPI_Isend, "Sort right unsigned char MPI_Isend")(
+          sprm.c.data(), sprm.c.size(), MPI_CHAR, rank + 1, 0,
+          piol->comm->getComm(), &rsnd[4]);
     }
 
     Wait(piol, rsnd, rrcv);
@@ -800,8 +823,8 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, Param* prm)
     Param rprm(prm->r, regionSz);
 
     size_t rank = piol->comm->getRank();
-    std::vector<MPI_Request> rsnd(4);
-    std::vector<MPI_Request> rrcv(4);
+    std::vector<MPI_Request> rsnd(5);
+    std::vector<MPI_Request> rrcv(5);
 
     // Lambda for wrapping an MPI call with logging.
     auto log_on_error = [&piol](auto mpi_function, std::string function_name) {
@@ -826,38 +849,46 @@ void sendLeft(ExSeisPIOL* piol, size_t regionSz, Param* prm)
         log_on_error(
           MPI_Isend, "Sort left exseis::utils::Floating_point MPI_Isend")(
           sprm.f.data(), sprm.f.size() * sizeof(exseis::utils::Floating_point),
-          MPI_CHAR, rank - 1, 1, MPI_COMM_WORLD, &rsnd[0]);
+          MPI_CHAR, rank - 1, 1, piol->comm->getComm(), &rsnd[0]);
 
         log_on_error(MPI_Isend, "Sort left exseis::utils::Integer MPI_Isend")(
           sprm.i.data(), sprm.i.size() * sizeof(exseis::utils::Integer),
-          MPI_CHAR, rank - 1, 1, MPI_COMM_WORLD, &rsnd[1]);
+          MPI_CHAR, rank - 1, 1, piol->comm->getComm(), &rsnd[1]);
 
         log_on_error(MPI_Isend, "Sort left short MPI_Isend")(
           sprm.s.data(), sprm.s.size() * sizeof(short), MPI_CHAR, rank - 1, 1,
-          MPI_COMM_WORLD, &rsnd[2]);
+          piol->comm->getComm(), &rsnd[2]);
 
         log_on_error(MPI_Isend, "Sort left size_t MPI_Isend")(
           sprm.t.data(), sprm.t.size() * sizeof(size_t), MPI_CHAR, rank - 1, 1,
-          MPI_COMM_WORLD, &rsnd[3]);
+          piol->comm->getComm(), &rsnd[3]);
+
+        log_on_error(MPI_Isend, "Sort left unsigned char MPI_Isend")(
+          sprm.c.data(), sprm.c.size(), MPI_CHAR, rank - 1, 1,
+          piol->comm->getComm(), &rsnd[4]);
     }
 
     if (rank != piol->comm->getNumRank() - 1) {
         log_on_error(
           MPI_Irecv, "Sort left exseis::utils::Floating_point MPI_Irecv")(
           rprm.f.data(), rprm.f.size() * sizeof(exseis::utils::Floating_point),
-          MPI_CHAR, rank + 1, 1, MPI_COMM_WORLD, &rrcv[0]);
+          MPI_CHAR, rank + 1, 1, piol->comm->getComm(), &rrcv[0]);
 
         log_on_error(MPI_Irecv, "Sort left exseis::utils::Integer MPI_Irecv")(
           rprm.i.data(), rprm.i.size() * sizeof(exseis::utils::Integer),
-          MPI_CHAR, rank + 1, 1, MPI_COMM_WORLD, &rrcv[1]);
+          MPI_CHAR, rank + 1, 1, piol->comm->getComm(), &rrcv[1]);
 
         log_on_error(MPI_Irecv, "Sort left short MPI_Irecv")(
           rprm.s.data(), rprm.s.size() * sizeof(short), MPI_CHAR, rank + 1, 1,
-          MPI_COMM_WORLD, &rrcv[2]);
+          piol->comm->getComm(), &rrcv[2]);
 
         log_on_error(MPI_Irecv, "Sort left size_t MPI_Irecv")(
           rprm.t.data(), rprm.t.size() * sizeof(size_t), MPI_CHAR, rank + 1, 1,
-          MPI_COMM_WORLD, &rrcv[3]);
+          piol->comm->getComm(), &rrcv[3]);
+
+        log_on_error(MPI_Irecv, "Sort left unsigned char MPI_Irecv")(
+          rprm.c.data(), rprm.c.size(), MPI_CHAR, rank + 1, 1,
+          piol->comm->getComm(), &rrcv[4]);
     }
 
     Wait(piol, rrcv, rsnd);
@@ -878,7 +909,7 @@ void sortP(ExSeisPIOL* piol, Param* prm, CompareP comp = nullptr)
     size_t lnt      = prm->size();
     size_t numRank  = piol->comm->getNumRank();
     size_t rank     = piol->comm->getRank();
-    size_t regionSz = piol->comm->min(lnt) / 4LU;
+    size_t regionSz = getRegionSz(piol, lnt);
     size_t edge1    = (rank != 0 ? regionSz : 0LU);
     size_t edge2    = (rank != numRank - 1 ? regionSz : 0LU);
 
@@ -954,7 +985,7 @@ void sortP(ExSeisPIOL* piol, Param* prm, CompareP comp = nullptr)
         int greduced = 1;
 
         int err = MPI_Allreduce(
-          &reduced, &greduced, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
+          &reduced, &greduced, 1, MPI_INT, MPI_SUM, piol->comm->getComm());
 
         if (err != MPI_SUCCESS) {
             piol->log->record(
-- 
2.43.0


From 8513a7b7dc61753a8081f1190bc8166440e33c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:16 +0000
Subject: [PATCH 17/35] fix: verify the order of traces across neighbouring
 processes

---
 util/verifysort.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/util/verifysort.cc b/util/verifysort.cc
index 8f980cf..5acd804 100644
--- a/util/verifysort.cc
+++ b/util/verifysort.cc
@@ -48,6 +48,13 @@ int main(int argc, char** argv)
     auto dec = block_decomposition(
       src.readNt(), piol->comm->getNumRank(), piol->comm->getRank());
 
+    // The first trace must also be in order with the last trace of the previous
+    // process.
+    if (dec.global_offset > 0 && dec.local_size > 0) {
+        dec.global_offset--;
+        dec.local_size++;
+    }
+
     if (checkOrder(src, dec, type)) {
         std::cout << "Success\n";
     }
-- 
2.43.0


From 6f45bcbc5511019673de582cc5381ef9923965ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:19 +0000
Subject: [PATCH 18/35] fix: extremes of a set: all-negative values and files
 without traces

The running maximum started at the smallest positive number, and a file
without traces contributed the value zero.
---
 src/Flow/Set.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 3681fb3..c14c1de 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -519,9 +519,11 @@ void Set::getMinMax(
 {
     // TODO: This needs to be changed to be compatible with ExSeisFlow
     minmax[0].val = std::numeric_limits<exseis::utils::Floating_point>::max();
-    minmax[1].val = std::numeric_limits<exseis::utils::Floating_point>::min();
+    minmax[1].val =
+      std::numeric_limits<exseis::utils::Floating_point>::lowest();
     minmax[2].val = std::numeric_limits<exseis::utils::Floating_point>::max();
-    minmax[3].val = std::numeric_limits<exseis::utils::Floating_point>::min();
+    minmax[3].val =
+      std::numeric_limits<exseis::utils::Floating_point>::lowest();
     for (size_t i = 0; i < 4; i++) {
         minmax[i].num = std::numeric_limits<size_t>::max();
     }
@@ -542,6 +544,12 @@ void Set::getMinMax(
         size_t offset = piol->comm->offset(f->ilst.size());
         PIOL::getMinMax(
           piol.get(), offset, f->ilst.size(), vprm.data(), xlam, ylam, tminmax);
+
+        // A file without traces has no extremes
+        if (f->ifc->readNt() == 0) {
+            continue;
+        }
+
         for (size_t i = 0LU; i < 2LU; i++) {
 
             {
-- 
2.43.0


From d8adb20deb96bfec5b990609536cc44d4ee8eb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:59 +0000
Subject: [PATCH 19/35] fix: tapering a signal of zeros

The search for the first live sample ran past the end of the signal.
---
 src/utils/signal_processing/taper.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/utils/signal_processing/taper.cc b/src/utils/signal_processing/taper.cc
index 72fd85c..7ae7863 100644
--- a/src/utils/signal_processing/taper.cc
+++ b/src/utils/signal_processing/taper.cc
@@ -31,8 +31,11 @@ void taper(
 
         auto* truncated_signal =
           std::find_if(signal, signal + signal_size, non_zero);
-        assert(truncated_signal[0] != 0);
 
+        // There is nothing to taper in a signal of zeros
+        if (truncated_signal == signal + signal_size) {
+            return;
+        }
 
         // Find the new sizes
         const auto truncated_signal_size =
-- 
2.43.0


From e238eb2a91ad0e403326646015f72cb37a199f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:59 +0000
Subject: [PATCH 20/35] fix: clip gain control windows that are longer than the
 signal

Windows of at least the length of the signal were clipped at one end only, so
samples outside the signal were read and gains stored outside their array.
---
 src/utils/signal_processing/AGC.cc | 46 ++++++------------------------
 1 file changed, 8 insertions(+), 38 deletions(-)

diff --git a/src/utils/signal_processing/AGC.cc b/src/utils/signal_processing/AGC.cc
index 34e22c2..8b520e6 100644
--- a/src/utils/signal_processing/AGC.cc
+++ b/src/utils/signal_processing/AGC.cc
@@ -11,6 +11,7 @@
 #include "ExSeisDat/utils/signal_processing/Gain_function.h"
 #include "ExSeisDat/utils/typedefs.h"
 
+#include <algorithm>
 #include <assert.h>
 #include <cstddef>
 #include <vector>
@@ -28,7 +29,6 @@ void AGC(
 {
     // If window_size is divisible by 2, round up to nearset odd number.
     window_size = (window_size % 2 == 0 ? window_size + 1 : window_size);
-    assert(signal_size > window_size);
 
     std::vector<Trace_value> gain(signal_size);
 
@@ -38,45 +38,15 @@ void AGC(
     assert(window_size == 2 * win2 + 1);
 
 
-    // Find the gain normalization at the start of the signal
-    for (size_t j = 0; j < win2; j++) {
-
-        // The window_size starts before the beginning of the array, so it grows
-        // in size from win2+1.
-        // The center of the unchopped window starts at the beginning of the
-        // chopped window so it starts from 0 and moves in.
-
-        // The array is indexed at zero (for this iteration's offset) as
-        // that's the lowest addressible index for the window.
-
-        const size_t chopped_window_size   = win2 + j + 1;
-        const size_t chopped_window_center = j;
-
-        gain[j] = gain_function(
-          &signal[0], chopped_window_size, target_amplitude,
-          chopped_window_center);
-    }
-
-    // Find the gain normalization for the middle of the signal, where the
-    // window remains unchopped.
-    for (size_t j = win2; j < signal_size - win2; j++) {
-        gain[j] =
-          gain_function(&signal[j - win2], window_size, target_amplitude, win2);
-    }
-
-    // Find the gain normalization for the end of the signal.
-    for (size_t j = signal_size - win2; j < signal_size; j++) {
-
-        // The window is coming to the end of the array, so it shrinks from
-        // the end as it approaches the boundary, down to a size of win2+1.
-        // The center of the unchopped window will always be win2 into
-        // the chopped window since we're chopping the end of the window.
-
-        const size_t dist_from_end       = (signal_size - 1) - j;
-        const size_t chopped_window_size = win2 + dist_from_end + 1;
+    // Find the gain normalization for each sample. Where the window starts before
+    // the beginning or ends after the end of the signal it is chopped there.
+    for (size_t j = 0; j < signal_size; j++) {
+        const size_t window_begin = (j > win2 ? j - win2 : 0);
+        const size_t window_end   = std::min(j + win2 + 1, signal_size);
 
         gain[j] = gain_function(
-          &signal[j - win2], chopped_window_size, target_amplitude, win2);
+          &signal[window_begin], window_end - window_begin, target_amplitude,
+          j - window_begin);
     }
 
     // Apply the gain to the signals.
-- 
2.43.0


From 06254e2cf0d3e1a7e21bd3f2e1f8f6bac9b0391b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:59 +0000
Subject: [PATCH 21/35] fix: gain statistics of windows without signal, of one
 sample and of mixed signs

A statistic of zero gave an infinite gain and so NaN for dead traces, the
triangular weights of a single sample were 0/0, and the mean absolute value
was the absolute value of the mean.
---
 src/utils/signal_processing/Gain_function.cc | 34 ++++++++++++--------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/utils/signal_processing/Gain_function.cc b/src/utils/signal_processing/Gain_function.cc
index 9093a86..6a160ff 100644
--- a/src/utils/signal_processing/Gain_function.cc
+++ b/src/utils/signal_processing/Gain_function.cc
@@ -27,7 +27,10 @@ Trace_value rectangular_RMS_gain(
     for (size_t j = 0; j < window_size; j++) {
         amp += signal[j] * signal[j];
     }
-    assert(amp != 0);
+    // There is nothing to scale in a window without signal
+    if (amp == 0) {
+        return 1;
+    }
 
     const auto non_zero = [](Trace_value i) { return i != 0; };
     const size_t num    = std::count_if(signal, &signal[window_size], non_zero);
@@ -101,7 +104,9 @@ Trace_value triangular_RMS_gain(
     // window_center to window_size - 1.
     const size_t right_width = (window_size - 1) - window_center;
 
-    const Trace_value half_width = std::max(left_width, right_width);
+    // The width is zero for a window of a single sample, whose scaling is 1
+    const Trace_value half_width =
+      std::max<size_t>(1, std::max(left_width, right_width));
 
     Trace_value amp = 0;
     for (size_t j = 0; j < window_size; j++) {
@@ -118,7 +123,10 @@ Trace_value triangular_RMS_gain(
 
         amp += scaled_signal * scaled_signal;
     }
-    assert(amp != 0);
+    // There is nothing to scale in a window without signal
+    if (amp == 0) {
+        return 1;
+    }
 
     const auto non_zero = [](Trace_value i) { return i != 0; };
     const size_t num    = std::count_if(signal, &signal[window_size], non_zero);
@@ -145,14 +153,18 @@ Trace_value mean_abs_gain(
 {
     assert(window_size > 0);
 
-    const Trace_value amp =
-      std::accumulate(signal, signal + window_size, Trace_value(0));
-    assert(amp != 0);
+    const Trace_value amp = std::accumulate(
+      signal, signal + window_size, Trace_value(0),
+      [](Trace_value sum, Trace_value i) { return sum + std::abs(i); });
+    // There is nothing to scale in a window without signal
+    if (amp == 0) {
+        return 1;
+    }
 
     const auto non_zero = [](Trace_value i) { return i != Trace_value(0); };
     const size_t num    = std::count_if(signal, &signal[window_size], non_zero);
 
-    return target_amplitude / (std::abs(amp) / std::max<size_t>(1, num));
+    return target_amplitude / (amp / std::max<size_t>(1, num));
 }
 
 extern "C" Trace_value exseis_mean_abs_gain(
@@ -178,15 +190,11 @@ Trace_value median_gain(
     if (window_size % 2 == 0) {
         const auto amp =
           ((signalTmp[window_size / 2] + signalTmp[window_size / 2 + 1]) / 2);
-        assert(amp != 0);
-
-        return target_amplitude / amp;
+        return (amp == 0 ? 1 : target_amplitude / amp);
     }
     else {
         const auto amp = signalTmp[window_size / 2];
-        assert(amp != 0);
-
-        return target_amplitude / amp;
+        return (amp == 0 ? 1 : target_amplitude / amp);
     }
 }
 
-- 
2.43.0


From 70370bf23ca99de29c33354d978d2ea1c7152700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:35 +0000
Subject: [PATCH 22/35] fix: extend the windowed signal at both ends before
 filtering

The right padding was placed one filter order too early, so its last samples
were missing, and the symmetric and cyclic extensions accessed samples outside
the window, as did short windows in general.
---
 src/temporalfilter.cc | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/temporalfilter.cc b/src/temporalfilter.cc
index d9b75c9..81d873a 100644
--- a/src/temporalfilter.cc
+++ b/src/temporalfilter.cc
@@ -305,22 +305,28 @@ FltrPad getPad(PadType type)
             return [](
                      exseis::utils::Trace_value* trc, size_t N, size_t nw,
                      size_t j) {
-                return (j <= nw ? trc[N - j] : trc[2 * (nw + N) - j]);
+                // Distance beyond the nearest end. Reflections are repeated if
+                // the padding is longer than the trace.
+                const size_t period = std::max<size_t>(1LU, 2LU * (nw - 1LU));
+                const size_t dist = (j < N ? N - j : j - (N + nw - 1LU)) % period;
+                const size_t k    = (dist < nw ? dist : period - dist);
+                return (j < N ? trc[k] : trc[nw - 1LU - k]);
             };
             break;
 
         case PadType::Replicate:
-            return
-              [](exseis::utils::Trace_value* trc, size_t, size_t nw, size_t j) {
-                  return (j <= nw ? trc[0] : trc[nw]);
-              };
+            return [](
+                     exseis::utils::Trace_value* trc, size_t N, size_t nw,
+                     size_t j) { return (j < N ? trc[0] : trc[nw - 1LU]); };
             break;
 
         case PadType::Cyclic:
             return [](
                      exseis::utils::Trace_value* trc, size_t N, size_t nw,
                      size_t j) {
-                return (j <= nw ? trc[nw - (N - j)] : trc[j - nw - N]);
+                return (
+                  j < N ? trc[nw - 1LU - (N - j - 1LU) % nw] :
+                          trc[(j - N) % nw]);
             };
             break;
     }
@@ -420,9 +426,10 @@ void filterTime(
     std::vector<exseis::utils::Trace_value> trcX(nw + 6LU * (numTail + 1LU));
 
     for (size_t i = 0LU; i < 3LU * (numTail + 1LU); i++) {
-        trcX[i] = padding(trcOrgnl, 3LU * (numTail + 1LU), nw, i);
-        trcX[i + 3LU * numTail + nw] = padding(
-          trcOrgnl, 3LU * (numTail + 1LU), nw - 1LU, i + 3LU * numTail + nw);
+        const size_t right = i + 3LU * (numTail + 1LU) + nw;
+
+        trcX[i]     = padding(trcOrgnl, 3LU * (numTail + 1LU), nw, i);
+        trcX[right] = padding(trcOrgnl, 3LU * (numTail + 1LU), nw, right);
     }
 
     for (size_t i = 0; i < nw; i++) {
-- 
2.43.0


From 780c9bc79b8b405e9dc13a001b6942c121096eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:35 +0000
Subject: [PATCH 23/35] fix: confine filter windows near the ends of a trace to
 the trace

A window around a centre closer than half its length to an end of the trace
read and changed samples of the neighbouring traces.
---
 src/temporalfilter.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/temporalfilter.cc b/src/temporalfilter.cc
index 81d873a..5c31f81 100644
--- a/src/temporalfilter.cc
+++ b/src/temporalfilter.cc
@@ -502,6 +502,11 @@ void temporalFilter(
     winCntr = ((winCntr == 0) ? ns / 2LU : winCntr);
 
     assert(winCntr < ns && "Window Center is larger than trace length");
+
+    // The part of the window which lies within the trace
+    const size_t winBegin = (winCntr > nw / 2LU ? winCntr - nw / 2LU : 0LU);
+    nw = std::min(winCntr + nw / 2LU + 1LU, ns) - winBegin;
+
     size_t tail    = ((corners[1] == 0) ? 1LU : 2LU);
     size_t numTail = N * tail;
     std::vector<exseis::utils::Trace_value> numer(numTail + 1);
@@ -513,7 +518,7 @@ void temporalFilter(
         std::vector<exseis::utils::Trace_value> trcOrgnl(nw);
 
         for (size_t j = 0; j < nw; j++) {
-            trcOrgnl[j] = trc[i * ns + (winCntr - nw / 2) + j];
+            trcOrgnl[j] = trc[i * ns + winBegin + j];
         }
         switch (domain) {
             case FltrDmn::Time:
@@ -530,7 +535,7 @@ void temporalFilter(
         }
 
         for (size_t j = 0; j < nw; j++) {
-            trc[i * ns + (winCntr - nw / 2LL) + j] = trcOrgnl[j];
+            trc[i * ns + winBegin + j] = trcOrgnl[j];
         }
     }
 }
-- 
2.43.0


From f32eaf07e9d5bca794857e544633eb944d777b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:35 +0000
Subject: [PATCH 24/35] fix: filter order of highpass and bandstop filters

The order was negative where the stop band lies below the pass band, and the
filter was then built with an enormous number of poles.
---
 src/temporalfilter.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/temporalfilter.cc b/src/temporalfilter.cc
index 5c31f81..ce20d82 100644
--- a/src/temporalfilter.cc
+++ b/src/temporalfilter.cc
@@ -45,7 +45,8 @@ size_t filterOrder(
       0.5 * std::log(99.0 / (std::pow(10.0, 0.3) - 1.0)));
 
     return std::ceil(
-      val / std::log(std::tan(pi * cornerS) / std::tan(pi * cornerP)));
+      val
+      / std::abs(std::log(std::tan(pi * cornerS) / std::tan(pi * cornerP))));
 }
 
 void expandPoly(
-- 
2.43.0


From abf85986004f7fb5ad0a44b807bbd0bfefa0d093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:01 +0000
Subject: [PATCH 25/35] Verification hook: adjustable memory limit of workflow
 blocks (EXSEISDAT_VERIF)

---
 src/Flow/Set.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index c14c1de..275b070 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -19,6 +19,11 @@
 using namespace exseis::utils;
 using namespace exseis::PIOL;
 
+#ifdef EXSEISDAT_VERIF
+/// The memory limit of the blocks of a workflow, adjustable for verification
+size_t exseisdat_verif_set_memory = 1024LU * 1024LU * 1024LU;
+#endif
+
 namespace exseis {
 namespace Flow {
 
@@ -200,7 +205,11 @@ std::vector<std::string> Set::startSingle(
         out->writeInc(inc);
         out->writeText(outmsg);
 
+#ifdef EXSEISDAT_VERIF
+        const size_t memlim = exseisdat_verif_set_memory;
+#else
         const size_t memlim = 1024LU * 1024LU * 1024LU;
+#endif
         size_t max =
           memlim
           / (5LU * sizeof(size_t) + SEGY_utils::getDOSz(ns)
-- 
2.43.0


From 4ed99c0de4d3bf860d833a4eaa8453fa6f150d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:09 +0000
Subject: [PATCH 26/35] fix: a separate output file for each trace length and
 interval of a set

---
 src/Flow/Set.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 275b070..cc600b1 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -188,7 +188,7 @@ std::vector<std::string> Set::startSingle(
         size_t ns                         = fQue[0]->ifc->readNs();
         exseis::utils::Floating_point inc = fQue[0]->ifc->readInc();
 
-        if (fQue.size() == 1) {
+        if (fmap.size() == 1 && fQue.size() == 1) {
             name = outfix + ".segy";
         }
         else {
-- 
2.43.0


From 6dadba76bbbf317ed266ffc3d25065f640867fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:09 +0000
Subject: [PATCH 27/35] fix: return the names of the outputs of a workflow with
 a sort

---
 src/Flow/Set.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index cc600b1..1211a43 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -502,7 +502,7 @@ std::vector<std::string> Set::calcFunc(
             ++fCurr;
         }
 
-        calcFunc(fCurr, fEnd);
+        return calcFunc(fCurr, fEnd);
     }
 
     return std::vector<std::string>{};
-- 
2.43.0


From 2da0fd4aa4444a8ccb428d358222e52c1675e6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:09 +0000
Subject: [PATCH 28/35] fix: keep the order of the traces when a set is too
 small to be sorted

---
 src/Flow/Set.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 1211a43..d4861af 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -428,10 +428,13 @@ Set::FuncLst::iterator Set::calcFuncS(
     std::vector<size_t> trlist =
       dynamic_cast<Op<InPlaceMod>*>(fCurr->get())->func(block.get());
 
-    size_t j = 0;
-    for (auto& f : fQue) {
-        std::copy(&trlist[j], &trlist[j + f->olst.size()], f->olst.begin());
-        j += f->olst.size();
+    // An empty list means that the operation left the order as it is
+    if (!trlist.empty()) {
+        auto it = trlist.begin();
+        for (auto& f : fQue) {
+            std::copy(it, it + f->olst.size(), f->olst.begin());
+            it += f->olst.size();
+        }
     }
 
     if (++fCurr != fEnd) {
-- 
2.43.0


From 37404adef49a787cf56d2771e098eb1f54c95e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:09 +0000
Subject: [PATCH 29/35] fix: distinct trace numbers when sorting sets of files
 of different sizes

---
 src/Flow/Cache.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Flow/Cache.cc b/src/Flow/Cache.cc
index 7ea3d87..2897789 100644
--- a/src/Flow/Cache.cc
+++ b/src/Flow/Cache.cc
@@ -44,7 +44,7 @@ std::shared_ptr<TraceBlock> Cache::getCache(
               f->ilst.size(), f->ilst.data(), prm.get(), loff);
             for (size_t i = 0LU; i < f->ilst.size(); i++) {
                 param_utils::setPrm(
-                  loff + i, PIOL_META_gtn, off + loff + f->ilst[i], prm.get());
+                  loff + i, PIOL_META_gtn, off + loff + i, prm.get());
                 param_utils::setPrm(
                   loff + i, PIOL_META_ltn, f->ilst[i] * desc.size() + c,
                   prm.get());
-- 
2.43.0


From 386c2e4221d5880d17e39276615b6f5380365e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:47 +0000
Subject: [PATCH 30/35] fix: sort sets of less than three traces on one process

---
 src/Flow/Set.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index d4861af..5130f76 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -610,7 +610,7 @@ void Set::sort(std::shared_ptr<Rule> r, CompareP sortFunc)
     func.push_back(std::make_shared<Op<InPlaceMod>>(
       opt, r, nullptr, [this, sortFunc](TraceBlock* in) -> std::vector<size_t> {
           // TODO: It will eventually be necessary to support this use case.
-          if (piol->comm->min(in->prm->size()) < 3LU) {
+          if (numRank > 1 && piol->comm->min(in->prm->size()) < 3LU) {
               piol->log->record(
                 "", Logger::Layer::Set, Logger::Status::Error,
                 "Email cathal@ichec.ie if you want to sort -very- small sets of files with multiple processes.",
-- 
2.43.0


From 3b4f17e2f351828fb62ef39f62840425db891056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:17 +0000
Subject: [PATCH 31/35] fix: do not overwrite the output of a workflow when the
 set is destroyed

---
 src/Flow/Set.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Flow/Set.cc b/src/Flow/Set.cc
index 5130f76..f9cda6b 100644
--- a/src/Flow/Set.cc
+++ b/src/Flow/Set.cc
@@ -523,6 +523,9 @@ std::vector<std::string> Set::output(std::string oname)
     std::vector<std::string> out = calcFunc(func.begin(), func.end());
     func.clear();
 
+    // The set has been output, the destructor must not overwrite it
+    outfix.clear();
+
     return out;
 }
 
-- 
2.43.0


From 82f5169b3b130e51c2d857cb6a09bf1f51075453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:58 +0000
Subject: [PATCH 32/35] fix: size in bytes of the coordinate windows of 4D
 binning

---
 util/4dcore.cc | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/util/4dcore.cc b/util/4dcore.cc
index 290a2b8..5490d0e 100644
--- a/util/4dcore.cc
+++ b/util/4dcore.cc
@@ -103,24 +103,29 @@ std::vector<MPI_Win> createCoordsWin(const Coords* crd, const bool ixline)
 
     // Look at MPI_Info
     MPIErr(MPI_Win_create(
-      crd->xSrc, crd->sz, sizeof(fourd_t), info, MPI_COMM_WORLD, &win[0]));
+      crd->xSrc, crd->sz * sizeof(fourd_t), sizeof(fourd_t), info,
+      MPI_COMM_WORLD, &win[0]));
     MPIErr(MPI_Win_create(
-      crd->ySrc, crd->sz, sizeof(fourd_t), info, MPI_COMM_WORLD, &win[1]));
+      crd->ySrc, crd->sz * sizeof(fourd_t), sizeof(fourd_t), info,
+      MPI_COMM_WORLD, &win[1]));
     MPIErr(MPI_Win_create(
-      crd->xRcv, crd->sz, sizeof(fourd_t), info, MPI_COMM_WORLD, &win[2]));
+      crd->xRcv, crd->sz * sizeof(fourd_t), sizeof(fourd_t), info,
+      MPI_COMM_WORLD, &win[2]));
     MPIErr(MPI_Win_create(
-      crd->yRcv, crd->sz, sizeof(fourd_t), info, MPI_COMM_WORLD, &win[3]));
+      crd->yRcv, crd->sz * sizeof(fourd_t), sizeof(fourd_t), info,
+      MPI_COMM_WORLD, &win[3]));
     MPIErr(MPI_Win_create(
-      crd->tn, crd->sz, sizeof(size_t), info, MPI_COMM_WORLD, &win[4]));
+      crd->tn, crd->sz * sizeof(size_t), sizeof(size_t), info, MPI_COMM_WORLD,
+      &win[4]));
 
     if (ixline) {
         win.resize(7);
         MPIErr(MPI_Win_create(
-          crd->il, crd->sz, sizeof(exseis::utils::Integer), info,
-          MPI_COMM_WORLD, &win[5]));
+          crd->il, crd->sz * sizeof(exseis::utils::Integer),
+          sizeof(exseis::utils::Integer), info, MPI_COMM_WORLD, &win[5]));
         MPIErr(MPI_Win_create(
-          crd->xl, crd->sz, sizeof(exseis::utils::Integer), info,
-          MPI_COMM_WORLD, &win[6]));
+          crd->xl, crd->sz * sizeof(exseis::utils::Integer),
+          sizeof(exseis::utils::Integer), info, MPI_COMM_WORLD, &win[6]));
     }
 
     MPI_Info_free(&info);
-- 
2.43.0


From 2be28147995255f43b0bea17bdedd68e86b5e2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:58 +0000
Subject: [PATCH 33/35] fix: do not skip the last trace of each process in 4D
 binning

---
 util/4dcore.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/util/4dcore.cc b/util/4dcore.cc
index 5490d0e..07f4bbb 100644
--- a/util/4dcore.cc
+++ b/util/4dcore.cc
@@ -291,13 +291,17 @@ size_t update(
     for (; rstart < rend && crd2->xSrc[rstart] < crd1->xSrc[lstart] - dsrmax;
          rstart++) {
     }
-    for (; rend >= rstart && crd2->xSrc[rend] > crd1->xSrc[lend - 1] + dsrmax;
+    for (; rend > rstart && crd2->xSrc[rend - 1] > crd1->xSrc[lend - 1] + dsrmax;
          rend--) {
     }
+    // There is no trace which can match our criteria
+    if (rstart == rend) {
+        return 0LU;
+    }
     for (; lstart < lend && crd1->xSrc[lstart] < crd2->xSrc[rstart] - dsrmax;
          lstart++) {
     }
-    for (; lend >= lstart && crd1->xSrc[lend] > crd2->xSrc[rend - 1] + dsrmax;
+    for (; lend > lstart && crd1->xSrc[lend - 1] > crd2->xSrc[rend - 1] + dsrmax;
          lend--) {
     }
 
-- 
2.43.0


From 6ef77c6027173e01bd445b21324144db66563cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:58 +0000
Subject: [PATCH 34/35] fix: 4D binning with processes without traces

---
 util/4dcore.cc | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/util/4dcore.cc b/util/4dcore.cc
index 07f4bbb..b646d64 100644
--- a/util/4dcore.cc
+++ b/util/4dcore.cc
@@ -244,6 +244,15 @@ void initUpdate(
   std::vector<size_t>& min,
   std::vector<fourd_t>& minrs)
 {
+    // There is no initial match if there are no file2 traces
+    if (crd2->sz == 0LU) {
+        std::fill(
+          minrs.begin(), minrs.begin() + crd1->sz,
+          std::numeric_limits<fourd_t>::max());
+        std::fill(min.begin(), min.begin() + crd1->sz, 0LU);
+        return;
+    }
+
     for (size_t i = 0; i < crd1->sz; i++) {
         minrs[i] =
           (!ixline
@@ -460,14 +469,18 @@ void calc4DBin(
     size_t numRank = piol->comm->getNumRank();
     auto szall     = piol->comm->gather(std::vector<size_t>{crd2->sz});
 
+    // A process without traces has an empty range
+    const fourd_t fmax = std::numeric_limits<fourd_t>::max();
+
     // The File2 min/max from every process
-    auto xsmin = piol->comm->gather(std::vector<fourd_t>{crd2->xSrc[0LU]});
-    auto xsmax =
-      piol->comm->gather(std::vector<fourd_t>{crd2->xSrc[crd2->sz - 1LU]});
+    auto xsmin = piol->comm->gather(
+      std::vector<fourd_t>{crd2->sz != 0LU ? crd2->xSrc[0LU] : fmax});
+    auto xsmax = piol->comm->gather(std::vector<fourd_t>{
+      crd2->sz != 0LU ? crd2->xSrc[crd2->sz - 1LU] : -fmax});
 
     // The File1 local min and local maximum for the particular process
-    auto xslmin = crd1->xSrc[0LU];
-    auto xslmax = crd1->xSrc[crd1->sz - 1LU];
+    auto xslmin = (crd1->sz != 0LU ? crd1->xSrc[0LU] : fmax);
+    auto xslmax = (crd1->sz != 0LU ? crd1->xSrc[crd1->sz - 1LU] : -fmax);
 
     // Perform a local initialisation update of min and minrs
     if (opt.ixline) {
@@ -481,7 +494,9 @@ void calc4DBin(
     // communicating with.
     std::vector<size_t> active;
     for (size_t i = 0LU; i < numRank; i++) {
-        if ((xsmin[i] - dsrmax <= xslmax) && (xsmax[i] + dsrmax >= xslmin)) {
+        if (
+          crd1->sz != 0LU && szall[i] != 0LU && (xsmin[i] - dsrmax <= xslmax)
+          && (xsmax[i] + dsrmax >= xslmin)) {
             active.push_back(i);
         }
     }
-- 
2.43.0


From ae6e4afe03124b709e7caa0fa92cca7fe4fb6154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:25 +0000
Subject: [PATCH 35/35] fix: 4D binning must not miss traces of a boat going
 the opposite way

---
 util/4dcore.cc | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/util/4dcore.cc b/util/4dcore.cc
index b646d64..06dc56b 100644
--- a/util/4dcore.cc
+++ b/util/4dcore.cc
@@ -265,6 +265,27 @@ void initUpdate(
     }
 }
 
+/*! Find the range of x which the sources and the receivers of traces span. The
+ *  receivers matter because the boat may be going in the opposite direction.
+ *  @param[in] crd The coordinates of the traces.
+ *  @param[in] start The first trace of interest.
+ *  @param[in] end One past the last trace of interest.
+ *  @return Return the minimum and the maximum. The range of no traces is empty.
+ */
+static std::pair<fourd_t, fourd_t> xRange(
+  const Coords* crd, const size_t start, const size_t end)
+{
+    std::pair<fourd_t, fourd_t> range = {std::numeric_limits<fourd_t>::max(),
+                                         -std::numeric_limits<fourd_t>::max()};
+    for (size_t i = start; i < end; i++) {
+        range.first =
+          std::min(range.first, std::min(crd->xSrc[i], crd->xRcv[i]));
+        range.second =
+          std::max(range.second, std::max(crd->xSrc[i], crd->xRcv[i]));
+    }
+    return range;
+}
+
 /*! Perform a minimisation check with the current two vectors of parameters.
  *  @tparam Init If true, perform the initialisation sequence.
  *  @param[in] crd1 A vector containing the process's parameter data from the
@@ -296,21 +317,23 @@ size_t update(
 
     // Ignore all file2 traces that can not possibly match our criteria within
     // the min/max
-    // of src x.
-    for (; rstart < rend && crd2->xSrc[rstart] < crd1->xSrc[lstart] - dsrmax;
+    // of src x and rcv x.
+    const auto range1 = xRange(crd1, lstart, lend);
+    for (; rstart < rend && crd2->xSrc[rstart] < range1.first - dsrmax;
          rstart++) {
     }
-    for (; rend > rstart && crd2->xSrc[rend - 1] > crd1->xSrc[lend - 1] + dsrmax;
+    for (; rend > rstart && crd2->xSrc[rend - 1] > range1.second + dsrmax;
          rend--) {
     }
     // There is no trace which can match our criteria
     if (rstart == rend) {
         return 0LU;
     }
-    for (; lstart < lend && crd1->xSrc[lstart] < crd2->xSrc[rstart] - dsrmax;
+    const auto range2 = xRange(crd2, rstart, rend);
+    for (; lstart < lend && crd1->xSrc[lstart] < range2.first - dsrmax;
          lstart++) {
     }
-    for (; lend > lstart && crd1->xSrc[lend - 1] > crd2->xSrc[rend - 1] + dsrmax;
+    for (; lend > lstart && crd1->xSrc[lend - 1] > range2.second + dsrmax;
          lend--) {
     }
 
@@ -479,8 +502,9 @@ void calc4DBin(
       crd2->sz != 0LU ? crd2->xSrc[crd2->sz - 1LU] : -fmax});
 
     // The File1 local min and local maximum for the particular process
-    auto xslmin = (crd1->sz != 0LU ? crd1->xSrc[0LU] : fmax);
-    auto xslmax = (crd1->sz != 0LU ? crd1->xSrc[crd1->sz - 1LU] : -fmax);
+    const auto range = xRange(crd1, 0LU, crd1->sz);
+    auto xslmin      = range.first;
+    auto xslmax      = range.second;
 
     // Perform a local initialisation update of min and minrs
     if (opt.ixline) {
-- 
2.43.0

