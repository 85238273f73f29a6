From b262b73b7fa00f447d9f6da53d00618d3fd88409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:10 +0000
Subject: [PATCH 01/37] fix: numeric_cast: refuse NaN when casting to an
 integral type

---
 include/common/numeric_cast.hh | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/common/numeric_cast.hh b/include/common/numeric_cast.hh
index 0f06820..9eac72c 100644
--- a/include/common/numeric_cast.hh
+++ b/include/common/numeric_cast.hh
@@ -31,6 +31,13 @@ constexpr bool numeric_cast_will_overflow(const Src &value)
     constexpr bool positive_overflow_possible = DstLim::max() < SrcLim::max();
     constexpr bool negative_overflow_possible = SrcLim::is_signed || (DstLim::lowest() > SrcLim::lowest());
 
+    // NaN has no integral representation
+    if constexpr ((!SrcLim::is_integer) && DstLim::is_integer) {
+        if (value != value) {
+            return true;
+        }
+    }
+
     // unsigned <-- unsigned
     if constexpr ((!DstLim::is_signed) && (!SrcLim::is_signed)) {
         if constexpr (positive_overflow_possible) {
-- 
2.43.0


From 6293a22b4dcf7d513836b1f75dee6a45d9b2d06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:10 +0000
Subject: [PATCH 02/37] fix: round Quake II leaf maxs up, not down, when
 narrowing to int16

---
 common/bspfile_q2.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/bspfile_q2.cc b/common/bspfile_q2.cc
index a49816b..06dadfc 100644
--- a/common/bspfile_q2.cc
+++ b/common/bspfile_q2.cc
@@ -180,7 +180,7 @@ q2_dleaf_t::q2_dleaf_t(const mleaf_t &model)
       cluster(numeric_cast<int16_t>(model.cluster, "dleaf_t::cluster")),
       area(numeric_cast<int16_t>(model.area, "dleaf_t::area")),
       mins(aabb_mins_cast<int16_t>(model.mins, "dleaf_t::mins")),
-      maxs(aabb_mins_cast<int16_t>(model.maxs, "dleaf_t::maxs")),
+      maxs(aabb_maxs_cast<int16_t>(model.maxs, "dleaf_t::maxs")),
       firstleafface(numeric_cast<uint16_t>(model.firstmarksurface, "dleaf_t::firstmarksurface")),
       numleaffaces(numeric_cast<uint16_t>(model.nummarksurfaces, "dleaf_t::nummarksurfaces")),
       firstleafbrush(numeric_cast<uint16_t>(model.firstleafbrush, "dleaf_t::firstleafbrush")),
-- 
2.43.0


From 61f056a7677ada65f7154990bed9d1bb18685db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:18 +0000
Subject: [PATCH 03/37] fix: membuf: never copy or seek past the buffer, report
 how much was copied

---
 common/cmdlib.cc | 84 ++++++++++++++++++++++++------------------------
 1 file changed, 42 insertions(+), 42 deletions(-)

diff --git a/common/cmdlib.cc b/common/cmdlib.cc
index f90d9b2..3f037bd 100644
--- a/common/cmdlib.cc
+++ b/common/cmdlib.cc
@@ -152,59 +152,59 @@ void membuf::setpptrs(char *first, char *next, char *end)
 
 membuf::pos_type membuf::seekpos(pos_type off, std::ios_base::openmode which)
 {
-    if (which & std::ios_base::in) {
-        setg(eback(), eback() + off, egptr());
-    }
-
-    if (which & std::ios_base::out) {
-        setpptrs(pbase(), pbase() + off, epptr());
-    }
-
-    if (which & std::ios_base::in) {
-        return gptr() - eback();
-    } else {
-        return pptr() - pbase();
-    }
+    return seekoff(off_type(off), std::ios_base::beg, which);
 }
 
 membuf::pos_type membuf::seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode which)
 {
-    if (which & std::ios_base::in) {
-        if (dir == std::ios_base::cur)
-            gbump(off);
-        else if (dir == std::ios_base::end)
-            setg(eback(), egptr() + off, egptr());
-        else if (dir == std::ios_base::beg)
-            setg(eback(), eback() + off, egptr());
-    }
+    // position relative to first, or -1 if it would be outside of the buffer
+    auto resolve = [off, dir](const char *first, const char *next, const char *end) -> off_type {
+        const off_type size = end - first;
+        const off_type base = (dir == std::ios_base::cur) ? (next - first) : (dir == std::ios_base::end) ? size : 0;
+
+        if (off < -base || off > size - base) {
+            return -1;
+        }
+
+        return base + off;
+    };
+
+    off_type pos = -1;
 
     if (which & std::ios_base::out) {
-        if (dir == std::ios_base::cur)
-            pbump(off);
-        else if (dir == std::ios_base::end)
-            setpptrs(pbase(), epptr() + off, epptr());
-        else if (dir == std::ios_base::beg)
-            setpptrs(pbase(), pbase() + off, epptr());
+        pos = resolve(pbase(), pptr(), epptr());
+
+        if (pos < 0) {
+            return pos_type(off_type(-1));
+        }
+
+        setpptrs(pbase(), pbase() + pos, epptr());
     }
 
     if (which & std::ios_base::in) {
-        return gptr() - eback();
-    } else {
-        return pptr() - pbase();
+        pos = resolve(eback(), gptr(), egptr());
+
+        if (pos < 0) {
+            return pos_type(off_type(-1));
+        }
+
+        setg(eback(), eback() + pos, egptr());
     }
+
+    return pos_type(pos);
 }
 
 std::streamsize membuf::xsputn(const char_type *s, std::streamsize n)
 {
-    if (pptr() == epptr()) {
-        return traits_type::eof();
-    }
-
     std::streamsize free_space = epptr() - pptr();
     std::streamsize num_write = std::min(free_space, n);
 
-    memcpy(pptr(), s, n);
-    setpptrs(pbase(), pptr() + n, epptr());
+    if (num_write <= 0) {
+        return 0;
+    }
+
+    memcpy(pptr(), s, num_write);
+    setpptrs(pbase(), pptr() + num_write, epptr());
 
     return num_write;
 }
@@ -216,15 +216,15 @@ membuf::int_type membuf::overflow(int_type ch)
 
 std::streamsize membuf::xsgetn(char_type *s, std::streamsize n)
 {
-    if (gptr() == egptr()) {
-        return traits_type::eof();
-    }
-
     std::streamsize free_space = egptr() - gptr();
     std::streamsize num_read = std::min(free_space, n);
 
-    memcpy(s, gptr(), n);
-    setg(eback(), gptr() + n, egptr());
+    if (num_read <= 0) {
+        return 0;
+    }
+
+    memcpy(s, gptr(), num_read);
+    setg(eback(), gptr() + num_read, egptr());
 
     return num_read;
 }
-- 
2.43.0


From f1223c95edde98e6c97a870d6f0fce94fbf04e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:18 +0000
Subject: [PATCH 04/37] fix: omemsizebuf: count single characters, never write
 through the null put area

---
 common/cmdlib.cc | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/common/cmdlib.cc b/common/cmdlib.cc
index 3f037bd..9307b81 100644
--- a/common/cmdlib.cc
+++ b/common/cmdlib.cc
@@ -303,22 +303,21 @@ omemsizebuf::pos_type omemsizebuf::seekoff(off_type off, std::ios_base::seekdir
 
 std::streamsize omemsizebuf::xsputn(const char_type *s, std::streamsize n)
 {
-    if (pptr() == epptr()) {
-        setpptrs(pbase(), epptr(), epptr() + n);
-    }
-
-    std::streamsize free_space = epptr() - pptr();
-    std::streamsize num_write = std::min(free_space, n);
+    // nothing is stored; keep the put area full so that every write ends up here or in overflow
+    char *next = pptr() + n;
 
-    setpptrs(pbase(), pptr() + n, epptr());
+    setpptrs(pbase(), next, std::max(next, epptr()));
 
-    return num_write;
+    return n;
 }
 
 omemsizebuf::int_type omemsizebuf::overflow(int_type ch)
 {
-    setpptrs(pbase(), epptr(), epptr() + 1);
-    return ch;
+    if (!traits_type::eq_int_type(ch, traits_type::eof())) {
+        setpptrs(pbase(), pptr() + 1, pptr() + 1);
+    }
+
+    return traits_type::not_eof(ch);
 }
 
 // omemsizestream
-- 
2.43.0


From cff9488c5cff8e1d71b45d0ebf7062e20ca6575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:08 +0000
Subject: [PATCH 05/37] fix: portal files: reject truncated or out-of-range
 data instead of looping or indexing out of bounds, read PRT1-AM cluster maps

---
 common/prtfile.cc | 34 +++++++++++++++++++---------------
 vis/vis.cc        |  4 ++++
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/common/prtfile.cc b/common/prtfile.cc
index 0720231..563317e 100644
--- a/common/prtfile.cc
+++ b/common/prtfile.cc
@@ -51,7 +51,7 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
     if (magic == PORTALFILE) {
         f >> result.portalleafs >> numportals;
 
-        if (f.bad())
+        if (!f)
             FError("unable to parse {} header\n", PORTALFILE);
 
         if (loadversion->game->id == GAME_QUAKE_II) {
@@ -66,7 +66,7 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
         }
         f >> result.portalleafs_real >> result.portalleafs >> numportals;
 
-        if (f.bad())
+        if (!f)
             FError("unable to parse {} header\n", PORTALFILE);
     } else if (magic == PORTALFILEAM) {
         if (loadversion->game->id == GAME_QUAKE_II) {
@@ -74,38 +74,42 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
         }
         f >> result.portalleafs >> numportals >> result.portalleafs_real;
 
-        if (f.bad())
+        if (!f)
             FError("unable to parse {} header\n", PORTALFILE);
     } else {
         FError("unknown header: {}\n", magic);
     }
 
+    if (result.portalleafs < 0 || result.portalleafs_real < 0 || numportals < 0) {
+        FError("negative count in portal file header");
+    }
+
     for (int i = 0; i < numportals; i++) {
         prtfile_portal_t p;
         int numpoints;
 
         f >> numpoints >> p.leafnums[0] >> p.leafnums[1];
-        if (f.bad())
+        if (!f)
             FError("reading portal {}", i);
-        if (numpoints > PRT_MAX_WINDING)
-            FError("portal {} has too many points", i);
-        if ((unsigned)p.leafnums[0] > (unsigned)result.portalleafs ||
-            (unsigned)p.leafnums[1] > (unsigned)result.portalleafs)
+        if (numpoints < 3 || numpoints > PRT_MAX_WINDING)
+            FError("portal {} has an invalid number of points", i);
+        if ((unsigned)p.leafnums[0] >= (unsigned)result.portalleafs ||
+            (unsigned)p.leafnums[1] >= (unsigned)result.portalleafs)
             FError("out of bounds leaf in portal {}", i);
 
         auto &w = p.winding;
         w.resize(numpoints);
 
         for (int j = 0; j < numpoints; j++) {
-            while (!f.bad() && f.get() != '(')
+            while (f && f.get() != '(')
                 ;
 
             f >> w[j][0] >> w[j][1] >> w[j][2];
 
-            while (!f.bad() && f.get() != ')')
+            while (f && f.get() != ')')
                 ;
 
-            if (f.bad())
+            if (!f)
                 FError("reading portal {}", i);
         }
 
@@ -138,7 +142,7 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
             while (1) {
                 int leafnum;
                 f >> leafnum;
-                if (f.bad() || f.eof())
+                if (!f)
                     break;
                 if (leafnum < 0)
                     break;
@@ -146,18 +150,18 @@ prtfile_t LoadPrtFile(const fs::path &name, const bspversion_t *loadversion)
                     FError("Invalid leaf number in cluster map ({} >= {})", leafnum, result.portalleafs_real);
                 result.dleafinfos[leafnum + 1].cluster = i;
             }
-            if (f.bad() || f.eof())
+            if (!f)
                 break;
         }
         if (i < result.portalleafs)
             FError("Couldn't read cluster map ({} / {})\n", i, result.portalleafs);
     } else if (magic == PORTALFILEAM) {
-        result.dleafinfos.resize(result.portalleafs + 1);
+        result.dleafinfos.resize(result.portalleafs_real + 1);
 
         for (int i = 0; i < result.portalleafs_real; i++) {
             int clusternum;
             f >> clusternum;
-            if (f.bad() || f.eof()) {
+            if (!f) {
                 Error("Unexpected end of cluster map\n");
             }
             if (clusternum < 0 || clusternum >= result.portalleafs) {
diff --git a/vis/vis.cc b/vis/vis.cc
index e657558..1adc628 100644
--- a/vis/vis.cc
+++ b/vis/vis.cc
@@ -669,6 +669,10 @@ static void LoadPortals(const fs::path &name, mbsp_t *bsp)
         return;
     }
 
+    if (prtfile.dleafinfos.size() > bsp->dleafs.size()) {
+        FError("{} has more leafs than the map; it doesn't belong to this map", name);
+    }
+
     // Copy cluster mapping from .prt file
     for (int i = 1; i < prtfile.dleafinfos.size(); ++i) {
         bsp->dleafs[i].cluster = prtfile.dleafinfos[i].cluster;
-- 
2.43.0


From 53fd0412c9ed93d2ef9228ce9b8d6d0443f227c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:08 +0000
Subject: [PATCH 06/37] fix: CalcPHS: merge every byte of the visible rows, not
 only whole longs

---
 vis/soundpvs.cc | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/vis/soundpvs.cc b/vis/soundpvs.cc
index 225ca62..121de88 100644
--- a/vis/soundpvs.cc
+++ b/vis/soundpvs.cc
@@ -166,7 +166,6 @@ void CalcPHS(mbsp_t *bsp)
     logging::funcheader();
 
     const int32_t leafbytes = (portalleafs + 7) >> 3;
-    const int32_t leaflongs = leafbytes / sizeof(long);
 
     // increase the bits size with approximately how much space we'll need
     bsp->dvis.bits.reserve(bsp->dvis.bits.size() * 2);
@@ -200,10 +199,8 @@ void CalcPHS(mbsp_t *bsp)
                 const uint8_t *src_compressed = bsp->dvis.bits.data() + bsp->dvis.get_bit_offset(VIS_PVS, index);
                 DecompressVis(src_compressed, bsp->dvis.bits.data() + bsp->dvis.bits.size(), uncompressed_2.data(),
                     uncompressed_2.data() + uncompressed_2.size());
-                const long *src = reinterpret_cast<long *>(uncompressed_2.data());
-                long *dest = reinterpret_cast<long *>(uncompressed.data());
-                for (int32_t l = 0; l < leaflongs; l++)
-                    dest[l] |= src[l];
+                for (int32_t l = 0; l < leafbytes; l++)
+                    uncompressed[l] |= uncompressed_2[l];
             }
         }
         for (int32_t j = 0; j < portalleafs; j++)
-- 
2.43.0


From 8b12eab50a30ec0202cf24d97b7ba0ac9de32d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:02 +0000
Subject: [PATCH 07/37] fix: vis state: reject truncated or corrupt state
 files, keep the old state when a save fails

---
 vis/state.cc | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/vis/state.cc b/vis/state.cc
index 6059c64..20eee37 100644
--- a/vis/state.cc
+++ b/vis/state.cc
@@ -94,21 +94,26 @@ static int CompressBits(uint8_t *out, const leafbits_t &in)
     return numbytes;
 }
 
-static void DecompressBits(leafbits_t &dst, const uint8_t *src)
+static void DecompressBits(leafbits_t &dst, const uint8_t *src, size_t srclen)
 {
     const size_t numbytes = (portalleafs + 7) >> 3;
+    const uint8_t *const end = src + srclen;
 
     dst.resize(portalleafs);
 
     for (size_t i = 0; i < numbytes; i++) {
+        if (src == end)
+            FError("underflow");
         uint8_t val = *src++;
         uint32_t shift = (i << 3) & leafbits_t::mask;
         dst.data()[i >> (leafbits_t::shift - 3)] |= (uint32_t)val << shift;
         if (val != 0 && val != 0xff)
             continue;
 
+        if (src == end)
+            FError("underflow");
         int32_t rep = *src++;
-        if (i + rep > numbytes)
+        if (rep == 0 || i + rep > numbytes)
             FError("overflow");
 
         /* Already wrote the first byte, add (rep - 1) copies */
@@ -178,6 +183,13 @@ void SaveVisState()
 
     std::error_code ec;
 
+    if (!out) {
+        // keep the previous state instead of replacing it with an incomplete one
+        logging::print("WARNING: couldn't write state file {}\n", statetmpfile);
+        fs::remove(statetmpfile, ec);
+        return;
+    }
+
     fs::remove(statefile, ec);
     if (ec && ec.value() != ENOENT)
         FError("error removing old state ({})", ec.message());
@@ -231,6 +243,10 @@ bool LoadVisState()
 
     in >= state;
 
+    if (!in) {
+        FError("state file {} is truncated", statefile);
+    }
+
     /* Sanity check the headers */
     if (state.version != VIS_STATE_VERSION) {
         FError("state file version does not match");
@@ -249,15 +265,22 @@ bool LoadVisState()
     for (auto &p : portals) {
         in >= pstate;
 
+        if (!in || pstate.might > numbytes || pstate.vis > numbytes) {
+            FError("state file {} is truncated or corrupt", statefile);
+        }
+
         p.status = static_cast<pstatus_t>(pstate.status);
         p.nummightsee = pstate.nummightsee;
         p.numcansee = pstate.numcansee;
 
         in.read((char *)compressed.data(), pstate.might);
+        if (!in) {
+            FError("state file {} is truncated", statefile);
+        }
         p.mightsee.resize(portalleafs);
 
         if (pstate.might < numbytes) {
-            DecompressBits(p.mightsee, compressed.data());
+            DecompressBits(p.mightsee, compressed.data(), pstate.might);
         } else {
             CopyLeafBits(p.mightsee, compressed.data(), portalleafs);
         }
@@ -266,8 +289,11 @@ bool LoadVisState()
 
         if (pstate.vis) {
             in.read((char *)compressed.data(), pstate.vis);
+            if (!in) {
+                FError("state file {} is truncated", statefile);
+            }
             if (pstate.vis < numbytes) {
-                DecompressBits(p.visbits, compressed.data());
+                DecompressBits(p.visbits, compressed.data(), pstate.vis);
             } else {
                 CopyLeafBits(p.visbits, compressed.data(), portalleafs);
             }
-- 
2.43.0


From f1b2adf1ff61606f9e366fc5937b009ea1b856a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:17 +0000
Subject: [PATCH 08/37] fix: BSP loading: refuse lumps outside the file, bound
 BSPX lumps and names

---
 common/bspfile.cc | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/common/bspfile.cc b/common/bspfile.cc
index f79d0ec..b1951f0 100644
--- a/common/bspfile.cc
+++ b/common/bspfile.cc
@@ -2239,11 +2239,22 @@ void LoadBSPFile(fs::path &filename, bspdata_t *bspdata)
         std::copy(q1header.lumps.begin(), q1header.lumps.end(), std::back_inserter(lumps));
     }
 
+    if (!stream) {
+        FError("\"{}\" is too small to be a BSP file\n", filename);
+    }
+
     /* check the file version */
     if (!BSPVersionSupported(temp_version.ident, temp_version.version, &bspdata->version)) {
         logging::print("BSP is version {}\n", temp_version);
         Error("Sorry, this bsp version is not supported.");
     } else {
+        // the lumps have to be inside the file
+        for (const lump_t &lump : lumps) {
+            if (lump.filelen < 0 || (lump.filelen > 0 && (lump.fileofs < 0 || static_cast<size_t>(lump.fileofs) + lump.filelen > file_data->size()))) {
+                FError("lump at offset {}, length {} is outside \"{}\"\n", lump.fileofs, lump.filelen, filename);
+            }
+        }
+
         // special case handling for Hexen II
         if (bspdata->version->game->id == GAME_QUAKE && isHexen2((dheader_t *)file_data->data(), bspdata->version)) {
             if (bspdata->version == &bspver_q1) {
@@ -2280,7 +2291,10 @@ void LoadBSPFile(fs::path &filename, bspdata_t *bspdata)
     // detect BSPX
     /*bspx header is positioned exactly+4align at the end of the last lump position (regardless of order)*/
     for (i = 0, bspxofs = 0; i < lumps.size(); i++) {
-        bspxofs = std::max(bspxofs, static_cast<size_t>(lumps[i].fileofs + lumps[i].filelen));
+        if (lumps[i].fileofs < 0) {
+            continue; // empty
+        }
+        bspxofs = std::max(bspxofs, static_cast<size_t>(lumps[i].fileofs) + lumps[i].filelen);
     }
 
     bspxofs = (bspxofs + 3) & ~3;
@@ -2305,12 +2319,15 @@ void LoadBSPFile(fs::path &filename, bspdata_t *bspdata)
                 return;
             }
 
-            if (xlump.fileofs > file_data->size() || (xlump.fileofs + xlump.filelen) > file_data->size()) {
+            if (static_cast<uint64_t>(xlump.fileofs) + xlump.filelen > file_data->size()) {
                 logging::print("WARNING: invalid BSPX lump at index {}\n", i);
                 return;
             }
 
-            bspdata->bspx.transfer(xlump.lumpname.data(), std::vector<uint8_t>(file_data->begin() + xlump.fileofs,
+            // the name isn't null terminated if it uses the whole field
+            std::string name(xlump.lumpname.begin(), std::find(xlump.lumpname.begin(), xlump.lumpname.end(), '\0'));
+
+            bspdata->bspx.transfer(name.c_str(), std::vector<uint8_t>(file_data->begin() + xlump.fileofs,
                                                               file_data->begin() + xlump.fileofs + xlump.filelen));
         }
     }
-- 
2.43.0


From 0e50784c4dcc699cab5d8b09bc96f7bffe40884c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:06 +0000
Subject: [PATCH 09/37] fix: BSP loading: refuse counts and offsets outside the
 visibility and texture lumps, bound texture names

---
 common/bspfile_generic.cc | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/common/bspfile_generic.cc b/common/bspfile_generic.cc
index 879f7e5..db8e53d 100644
--- a/common/bspfile_generic.cc
+++ b/common/bspfile_generic.cc
@@ -20,6 +20,8 @@
 #include <common/bspfile.hh>
 #include <common/cmdlib.hh>
 
+#include <algorithm>
+
 // dmodelh2_t
 
 void dmodelh2_t::stream_write(std::ostream &s) const
@@ -60,6 +62,13 @@ void mvis_t::stream_read(std::istream &stream, const lump_t &lump)
 
     stream >= numclusters;
 
+    // the offset tables have to fit in the lump
+    if (!stream || numclusters < 0 ||
+        sizeof(numclusters) + (sizeof(bit_offsets[0]) * static_cast<size_t>(numclusters)) > lump.filelen) {
+        stream.setstate(std::ios_base::failbit);
+        return;
+    }
+
     resize(numclusters);
 
     // read cluster -> offset tables
@@ -115,10 +124,11 @@ void miptex_t::stream_read(std::istream &stream, size_t len)
 
     imemstream miptex_stream(data.data(), len);
 
-    dmiptex_t dtex;
+    dmiptex_t dtex{};
     miptex_stream >= dtex;
 
-    name = dtex.name.data();
+    // not null terminated if it uses the whole field
+    name.assign(dtex.name.begin(), std::find(dtex.name.begin(), dtex.name.end(), '\0'));
     width = dtex.width;
     height = dtex.height;
     offsets = dtex.offsets;
@@ -136,6 +146,12 @@ void dmiptexlump_t::stream_read(std::istream &stream, const lump_t &lump)
     int32_t nummiptex;
     stream >= nummiptex;
 
+    // the offsets have to fit in the lump
+    if (!stream || nummiptex < 0 || sizeof(nummiptex) + (sizeof(int32_t) * static_cast<size_t>(nummiptex)) > lump.filelen) {
+        stream.setstate(std::ios_base::failbit);
+        return;
+    }
+
     // load in all of the offsets, we need them
     // to calculate individual data sizes
     std::vector<int32_t> offsets(nummiptex);
@@ -155,6 +171,11 @@ void dmiptexlump_t::stream_read(std::istream &stream, const lump_t &lump)
             continue;
         }
 
+        if (offset > lump.filelen) {
+            stream.setstate(std::ios_base::failbit);
+            return;
+        }
+
         // move to miptex position (technically required
         // because there might be dummy data between the offsets
         // and the mip textures themselves...)
@@ -177,6 +198,11 @@ void dmiptexlump_t::stream_read(std::istream &stream, const lump_t &lump)
             next_offset = lump.filelen;
         }
 
+        if (next_offset > lump.filelen) {
+            stream.setstate(std::ios_base::failbit);
+            return;
+        }
+
         if (next_offset > offset) {
             tex.stream_read(stream, next_offset - offset);
         }
-- 
2.43.0


From e14ed9c8c02d42be9bd74e30a4f42bb60fa6055b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:06 +0000
Subject: [PATCH 10/37] fix: WriteBSPFile: report write errors instead of
 leaving a truncated file

---
 common/bspfile.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/bspfile.cc b/common/bspfile.cc
index b1951f0..d8c33f5 100644
--- a/common/bspfile.cc
+++ b/common/bspfile.cc
@@ -2580,6 +2580,11 @@ void WriteBSPFile(const fs::path &filename, bspdata_t *bspdata)
     } else {
         bspfile.stream <= bspfile.q1header;
     }
+
+    bspfile.stream.close();
+
+    if (!bspfile.stream)
+        FError("error writing {} (disk full?)", filename);
 }
 
 /* ========================================================================= */
-- 
2.43.0


From a95e166dc8bd815e784badd3efc733c17283db81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:16 +0000
Subject: [PATCH 11/37] fix: parser_t: don't read past the end of input that
 isn't null-terminated

---
 common/parser.cc | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/common/parser.cc b/common/parser.cc
index c3df3e4..1917b60 100644
--- a/common/parser.cc
+++ b/common/parser.cc
@@ -68,7 +68,7 @@ parser_t::parser_t(const void *start, size_t length, parser_source_location base
 }
 
 parser_t::parser_t(const std::string_view &view, parser_source_location base_location)
-    : parser_t(&view.front(), view.size(), base_location)
+    : parser_t(view.data(), view.size(), base_location)
 {
 }
 
@@ -96,10 +96,13 @@ bool parser_t::parse_token(parseflags flags)
     token.clear();
     auto token_p = std::back_inserter(token);
 
+    // the input isn't necessarily null terminated
+    const auto peek = [this](ptrdiff_t offset = 0) { return end - pos > offset ? pos[offset] : '\0'; };
+
 skipspace:
     /* skip space */
-    while (at_end() || *pos <= 32) {
-        if (at_end() || !*pos) {
+    while (peek() <= 32) {
+        if (!peek()) {
             if (flags & PARSE_OPTIONAL)
                 return false;
             if (flags & PARSE_SAMELINE)
@@ -117,9 +120,9 @@ skipspace:
     }
 
     /* comment field */
-    if ((pos[0] == '/' && pos[1] == '/') || pos[0] == ';') { // quark writes ; comments in q2 maps
+    if ((peek() == '/' && peek(1) == '/') || peek() == ';') { // quark writes ; comments in q2 maps
         if (flags & PARSE_COMMENT) {
-            while (*pos && *pos != '\n') {
+            while (peek() && peek() != '\n') {
                 *token_p++ = *pos++;
             }
             goto out;
@@ -129,7 +132,7 @@ skipspace:
         if (flags & PARSE_SAMELINE)
             FError("{}: Line is incomplete", location);
         while (*pos++ != '\n') {
-            if (!*pos) {
+            if (!peek()) {
                 if (flags & PARSE_SAMELINE)
                     FError("{}: Line is incomplete", location);
                 return false;
@@ -143,18 +146,18 @@ skipspace:
 
     /* copy token */
 
-    if (*pos == '"') {
+    if (peek() == '"') {
         was_quoted = true;
         pos++;
-        while (*pos != '"') {
-            if (!*pos)
+        while (peek() != '"') {
+            if (!peek())
                 FError("{}: EOF inside quoted token", location);
-            if (*pos == '\\') {
+            if (peek() == '\\') {
                 // small note. the vanilla quake engine just parses the "foo" stuff then goes and looks for \n
                 // explicitly within strings. this means ONLY \n works, and double-quotes cannot be used either in maps
                 // _NOR SAVED GAMES_. certain editors can write "wad" "c:\foo\" which is completely fucked. so lets try
                 // to prevent more brokenness and encourage map editors to switch to using sane wad keys.
-                switch (pos[1]) {
+                switch (peek(1)) {
                     case 'n':
                     case '\'':
                     case 'r':
@@ -177,14 +180,14 @@ skipspace:
                     case '9': // too lazy to validate these. doesn't break stuff.
                         break;
                     case '\"':
-                        if (pos[2] == '\r' || pos[2] == '\n') {
+                        if (peek(2) == '\r' || peek(2) == '\n') {
                             logging::print("WARNING: {}: escaped double-quote at end of string\n", location);
                         } else {
                             *token_p++ = *pos++;
                         }
                         break;
                     default:
-                        logging::print("WARNING: {}: Unrecognised string escape - \\{}\n", location, pos[1]);
+                        logging::print("WARNING: {}: Unrecognised string escape - \\{}\n", location, peek(1));
                         break;
                 }
             }
@@ -192,7 +195,7 @@ skipspace:
         }
         pos++;
     } else {
-        while (*pos > 32) {
+        while (peek() > 32) {
             *token_p++ = *pos++;
         }
     }
-- 
2.43.0


From 9031cd4fe36c6fe0d7ddca55be4dfea8d1d44fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:16 +0000
Subject: [PATCH 12/37] fix: trim whitespace from entity keys correctly

---
 common/entdata.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/entdata.cc b/common/entdata.cc
index cbc72e5..541b3b2 100644
--- a/common/entdata.cc
+++ b/common/entdata.cc
@@ -169,11 +169,11 @@ void entdict_t::parse(parser_base_t &parser)
             FError("closing brace without data");
 
         // trim whitespace from start/end
-        while (std::isspace(keystr.front())) {
+        while (!keystr.empty() && std::isspace(static_cast<unsigned char>(keystr.front()))) {
             keystr.erase(keystr.begin());
         }
-        while (std::isspace(keystr.back())) {
-            keystr.erase(keystr.cbegin());
+        while (!keystr.empty() && std::isspace(static_cast<unsigned char>(keystr.back()))) {
+            keystr.pop_back();
         }
 
         set(keystr, parser.token);
-- 
2.43.0


From 4472e320ec9e14ee3f03e7866186ef0edf34b864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:14 +0000
Subject: [PATCH 13/37] fix: Quake II portals between different opaque contents
 blocked and matching ones let vis through the wrong way around

---
 common/bspfile.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/bspfile.cc b/common/bspfile.cc
index d8c33f5..604aa2f 100644
--- a/common/bspfile.cc
+++ b/common/bspfile.cc
@@ -1184,7 +1184,7 @@ struct gamedef_q2_t : public gamedef_t
         if (!(c0 ^ c1))
             return true;
 
-        return (((c0 ^ c1) & EWT_ALL_VISIBLE_CONTENTS) != 0);
+        return (((c0 ^ c1) & EWT_ALL_VISIBLE_CONTENTS) == 0);
     }
 
     bool contents_seals_map(const contentflags_t &contents) const override
-- 
2.43.0


From 0b27e915171feb7cee4637e1c76d6cf2acbc7867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:03 +0000
Subject: [PATCH 14/37] fix: natural string ordering was not transitive with
 leading zeros

---
 common/cmdlib.cc | 39 +++++++++++++++------------------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/common/cmdlib.cc b/common/cmdlib.cc
index 9307b81..0716858 100644
--- a/common/cmdlib.cc
+++ b/common/cmdlib.cc
@@ -570,26 +570,21 @@ bool natstrlt(const char *s1, const char *s2, bool case_sensitive)
                     return false;
                 else {
                     state = st_numeric;
-                    if (sz1 == 0)
-                        while (*p1 == '0') {
-                            p1++;
-                            sz1++;
-                        }
-                    else
-                        while (*p1 == '0')
-                            p1++;
-                    if (sz2 == 0)
-                        while (*p2 == '0') {
-                            p2++;
-                            sz2++;
-                        }
-                    else
-                        while (*p2 == '0')
-                            p2++;
+                    // the first difference in leading zeros decides between otherwise equal strings
+                    unsigned long zeros1 = 0;
+                    unsigned long zeros2 = 0;
+                    while (*p1 == '0') {
+                        p1++;
+                        zeros1++;
+                    }
+                    while (*p2 == '0') {
+                        p2++;
+                        zeros2++;
+                    }
                     if (sz1 == sz2) {
-                        sz1 = 0;
-                        sz2 = 0;
-                    };
+                        sz1 = zeros1;
+                        sz2 = zeros2;
+                    }
                     if (!t_digit(*p1))
                         p1--;
                     if (!t_digit(*p2))
@@ -631,15 +626,11 @@ bool natstrlt(const char *s1, const char *s2, bool case_sensitive)
                 break;
         }
     }
-    if (sz1 < sz2)
-        return true;
-    if (sz1 > sz2)
-        return false;
     if (*p1 == 0 && *p2 != 0)
         return true;
     if (*p1 != 0 && *p2 == 0)
         return false;
-    return false;
+    return sz1 < sz2;
 }
 
 bool stlnatstrlt(const std::string &s1, const std::string &s2, bool case_sensitive)
-- 
2.43.0


From 50b26d30af1f130074ffc9b21af5a8b9fee55d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:40 +0000
Subject: [PATCH 15/37] fix: damaged pak and wad archives: refuse directories
 and files outside the archive, bound names

---
 common/fs.cc | 92 ++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 75 insertions(+), 17 deletions(-)

diff --git a/common/fs.cc b/common/fs.cc
index 2f98216..58e15b1 100644
--- a/common/fs.cc
+++ b/common/fs.cc
@@ -22,6 +22,7 @@
 #include "common/cmdlib.hh"
 #include "common/fs.hh"
 #include "common/log.hh"
+#include <algorithm>
 #include <fstream>
 #include <memory>
 #include <array>
@@ -37,7 +38,10 @@ struct directory_archive : archive_like
 
     bool contains(const path &filename) override
     {
-        return exists(!pathname.empty() ? (pathname / filename) : filename);
+        path p = !pathname.empty() ? (pathname / filename) : filename;
+
+        // a directory that happens to have the name isn't the file
+        return exists(p) && !is_directory(p);
     }
 
     data load(const path &filename) override
@@ -61,6 +65,52 @@ struct directory_archive : archive_like
     }
 };
 
+// number of bytes in the stream
+static uint64_t streamSize(std::ifstream &stream)
+{
+    stream.clear();
+    stream.seekg(0, std::ios_base::end);
+    auto pos = stream.tellg();
+    return pos == std::ifstream::pos_type(-1) ? 0 : static_cast<uint64_t>(pos);
+}
+
+// throws if the archive's directory of `count` entries isn't in the file
+static void checkDirectory(std::ifstream &stream, uint64_t offset, uint64_t count, uint64_t entry_size)
+{
+    uint64_t size = stream ? streamSize(stream) : 0;
+
+    if (offset > size || count > (size - offset) / entry_size) {
+        throw std::runtime_error("Directory is outside of the file");
+    }
+}
+
+// names that fill their field aren't null terminated
+template<size_t N>
+static std::string entryName(const std::array<char, N> &name)
+{
+    return std::string(name.begin(), std::find(name.begin(), name.end(), '\0'));
+}
+
+// loads a file stored in an archive, if it is really there
+static data loadEntry(std::ifstream &stream, uint64_t offset, uint64_t size)
+{
+    uint64_t available = streamSize(stream);
+
+    if (offset > available || size > available - offset) {
+        return std::nullopt;
+    }
+
+    stream.seekg(offset);
+    std::vector<uint8_t> data(size);
+    stream.read(reinterpret_cast<char *>(data.data()), size);
+
+    if (!stream) {
+        return std::nullopt;
+    }
+
+    return data;
+}
+
 struct pak_archive : archive_like
 {
     std::ifstream pakstream;
@@ -92,7 +142,7 @@ struct pak_archive : archive_like
     {
         pakstream >> endianness<std::endian::little>;
 
-        pak_header header;
+        pak_header header{};
 
         pakstream >= header;
 
@@ -102,16 +152,18 @@ struct pak_archive : archive_like
 
         size_t totalFiles = header.size / sizeof(pak_file);
 
+        checkDirectory(pakstream, header.offset, totalFiles, sizeof(pak_file));
+
         files.reserve(totalFiles);
 
         pakstream.seekg(header.offset);
 
         for (size_t i = 0; i < totalFiles; i++) {
-            pak_file file;
+            pak_file file{};
 
             pakstream >= file;
 
-            files[file.name.data()] = std::make_tuple(file.offset, file.size);
+            files[entryName(file.name)] = std::make_tuple(file.offset, file.size);
         }
     }
 
@@ -125,11 +177,13 @@ struct pak_archive : archive_like
             return std::nullopt;
         }
 
-        pakstream.seekg(std::get<0>(it->second));
-        uintmax_t size = std::get<1>(it->second);
-        std::vector<uint8_t> data(size);
-        pakstream.read(reinterpret_cast<char *>(data.data()), size);
-        return data;
+        data result = loadEntry(pakstream, std::get<0>(it->second), std::get<1>(it->second));
+
+        if (!result) {
+            logging::funcprint("WARNING: '{}' is truncated in '{}'\n", filename, pathname);
+        }
+
+        return result;
     }
 };
 
@@ -172,7 +226,7 @@ struct wad_archive : archive_like
     {
         wadstream >> endianness<std::endian::little>;
 
-        wad_header header;
+        wad_header header{};
 
         wadstream >= header;
 
@@ -180,16 +234,18 @@ struct wad_archive : archive_like
             throw std::runtime_error("Bad magic");
         }
 
+        checkDirectory(wadstream, header.infotableofs, header.numlumps, 32);
+
         files.reserve(header.numlumps);
 
         wadstream.seekg(header.infotableofs);
 
         for (size_t i = 0; i < header.numlumps; i++) {
-            wad_lump_header file;
+            wad_lump_header file{};
 
             wadstream >= file;
 
-            files[file.name.data()] = std::make_tuple(file.filepos, file.disksize);
+            files[entryName(file.name)] = std::make_tuple(file.filepos, file.disksize);
         }
     }
 
@@ -203,11 +259,13 @@ struct wad_archive : archive_like
             return std::nullopt;
         }
 
-        wadstream.seekg(std::get<0>(it->second));
-        uintmax_t size = std::get<1>(it->second);
-        std::vector<uint8_t> data(size);
-        wadstream.read(reinterpret_cast<char *>(data.data()), size);
-        return data;
+        data result = loadEntry(wadstream, std::get<0>(it->second), std::get<1>(it->second));
+
+        if (!result) {
+            logging::funcprint("WARNING: '{}' is truncated in '{}'\n", filename, pathname);
+        }
+
+        return result;
     }
 };
 
-- 
2.43.0


From 5ad87411fd2b7b740ffa4d47dedb774667d68366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:30 +0000
Subject: [PATCH 16/37] fix: detail fill filled pockets whose entity lies
 exactly on the surface of detail

---
 qbsp/outside.cc | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/qbsp/outside.cc b/qbsp/outside.cc
index f550bbd..1c08da9 100644
--- a/qbsp/outside.cc
+++ b/qbsp/outside.cc
@@ -72,7 +72,8 @@ leaf, so an info_player_start 24 units off a floor causes the
 room to not get filled in as solid.
 ===========
 */
-static node_t *PointInLeaf(node_t *node, const qvec3d &point, bool prefer_sealing)
+static node_t *PointInLeaf(
+    node_t *node, const qvec3d &point, bool prefer_sealing, bool (*leaf_seals)(const node_t *) = LeafSealsMap)
 {
     auto *nodedata = node->get_nodedata();
 
@@ -84,17 +85,17 @@ static node_t *PointInLeaf(node_t *node, const qvec3d &point, bool prefer_sealin
 
     if (dist > 0) {
         // point is on the front of the node plane
-        return PointInLeaf(nodedata->children[0], point, prefer_sealing);
+        return PointInLeaf(nodedata->children[0], point, prefer_sealing, leaf_seals);
     } else if (dist < 0) {
         // point is on the back of the node plane
-        return PointInLeaf(nodedata->children[1], point, prefer_sealing);
+        return PointInLeaf(nodedata->children[1], point, prefer_sealing, leaf_seals);
     } else {
         // point is exactly on the node plane
 
-        node_t *front = PointInLeaf(nodedata->children[0], point, prefer_sealing);
-        node_t *back = PointInLeaf(nodedata->children[1], point, prefer_sealing);
+        node_t *front = PointInLeaf(nodedata->children[0], point, prefer_sealing, leaf_seals);
+        node_t *back = PointInLeaf(nodedata->children[1], point, prefer_sealing, leaf_seals);
 
-        if (prefer_sealing == LeafSealsMap(front)) {
+        if (prefer_sealing == leaf_seals(front)) {
             return front;
         }
         return back;
@@ -343,7 +344,7 @@ MarkOccupiedLeafs
 sets node->occupant
 ==================
 */
-static void MarkOccupiedLeafs(node_t *headnode, hull_index_t hullnum)
+static void MarkOccupiedLeafs(node_t *headnode, hull_index_t hullnum, bool detail_fill = false)
 {
     for (int i = 1; i < map.entities.size(); i++) {
         mapentity_t &entity = map.entities.at(i);
@@ -359,7 +360,14 @@ static void MarkOccupiedLeafs(node_t *headnode, hull_index_t hullnum)
 
         /* find the leaf it's in. Skip opqaue leafs */
         bool prefer_sealing = !hullnum.has_value() || hullnum.value() == 0;
-        node_t *leaf = PointInLeaf(headnode, entity.origin, prefer_sealing);
+        node_t *leaf;
+        if (detail_fill) {
+            // the void is already filled, so an entity exactly on the surface of detail|solid
+            // must keep the pocket on the other side
+            leaf = PointInLeaf(headnode, entity.origin, false, LeafSealsForDetailFill);
+        } else {
+            leaf = PointInLeaf(headnode, entity.origin, prefer_sealing);
+        }
         auto *leafdata = leaf->get_leafdata();
 
         if (LeafSealsMap(leaf)) {
@@ -836,7 +844,7 @@ void FillDetail(tree_t &tree, hull_index_t hullnum, bspbrush_t::container &brush
     ClearOccupied_r(tree.headnode);
 
     // Sets leaf->occupant
-    MarkOccupiedLeafs(tree.headnode, hullnum);
+    MarkOccupiedLeafs(tree.headnode, hullnum, true);
     const std::vector<node_t *> occupied_leafs = FindOccupiedLeafs(tree.headnode);
 
     if (occupied_leafs.empty()) {
-- 
2.43.0


From eab94f030565ce5e53fa936cb2fae3bda6826109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:53 +0000
Subject: [PATCH 17/37] fix: tjunc takes zero-area triangles on sloped edges
 for valid ones

---
 qbsp/tjunc.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qbsp/tjunc.cc b/qbsp/tjunc.cc
index dfa5f2a..008156d 100644
--- a/qbsp/tjunc.cc
+++ b/qbsp/tjunc.cc
@@ -23,6 +23,7 @@
 
 #include <qbsp/qbsp.hh>
 #include <qbsp/map.hh>
+#include <algorithm>
 #include <atomic>
 
 struct tjunc_stats_t : logging::stat_tracker_t
@@ -278,7 +279,8 @@ static float AngleOfTriangle(const qvec3d &a, const qvec3d &b, const qvec3d &c)
     double den = sqrt(pow((b[0] - a[0]), 2) + pow((b[1] - a[1]), 2) + pow((b[2] - a[2]), 2)) *
                 sqrt(pow((c[0] - a[0]), 2) + pow((c[1] - a[1]), 2) + pow((c[2] - a[2]), 2));
 
-    return acos(num / den) * (180.0 / 3.141592653589793238463);
+    // rounding can take the cosine out of the domain of acos
+    return acos(std::clamp(num / den, -1.0, 1.0)) * (180.0 / 3.141592653589793238463);
 }
 
 // Check whether the given input triangle would be valid
-- 
2.43.0


From db07a70ed4030dbacdfe791fe271f30b031a38d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:54 +0000
Subject: [PATCH 18/37] fix: only the first of a face's fans is split to the
 edge limit

---
 qbsp/tjunc.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/qbsp/tjunc.cc b/qbsp/tjunc.cc
index 008156d..4888fe7 100644
--- a/qbsp/tjunc.cc
+++ b/qbsp/tjunc.cc
@@ -268,9 +268,6 @@ static void SplitFaceIntoFragments(
         // resize superface; we need enough room to store the two extra verts
         superface.resize(superface.size() - maxedges + 2);
     }
-
-    // move the first face to the end, since that's logically where it belongs now
-    output.splice(output.end(), output, output.begin());
 }
 
 static float AngleOfTriangle(const qvec3d &a, const qvec3d &b, const qvec3d &c)
@@ -863,11 +860,17 @@ static void FixFaceEdges(node_t *headnode, face_t *f, tjunc_stats_t &stats)
 
     // split giant superfaces into subfaces if we have an edge limit.
     if (qbsp_options.maxedges.value()) {
+        // collected separately, so that every face is visited
+        std::list<std::vector<size_t>> fragments;
+
         for (auto &face : faces) {
             Q_assert(face.size() >= 3);
-            SplitFaceIntoFragments(face, faces, stats);
+            SplitFaceIntoFragments(face, fragments, stats);
             Q_assert(face.size() >= 3);
         }
+
+        // move the remainders to the end, since that's logically where they belong
+        faces.splice(faces.begin(), fragments);
     }
 
     // move the results into the face
-- 
2.43.0


From b636c28fb17e0bd3432dfb9ca302cbc3124bed27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:03 +0000
Subject: [PATCH 19/37] fix: qbsp hangs on -subdivide 16 or less, or on faces
 too finely scaled to subdivide

---
 qbsp/faces.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/qbsp/faces.cc b/qbsp/faces.cc
index 3c37e26..56b0e84 100644
--- a/qbsp/faces.cc
+++ b/qbsp/faces.cc
@@ -425,7 +425,7 @@ static std::list<std::unique_ptr<face_t>> SubdivideFace(std::unique_ptr<face_t>
             //                plane.dist = (mins + subdiv/2) / v;
             //            else
             //                plane.dist = (mins + subdiv) / v;
-            plane.dist = (mins + subdiv - 16) / v;
+            plane.dist = (mins + (subdiv > 16 ? subdiv - 16 : subdiv)) / v;
 
             std::unique_ptr<face_t> front;
             std::unique_ptr<face_t> back;
@@ -435,7 +435,10 @@ static std::list<std::unique_ptr<face_t>> SubdivideFace(std::unique_ptr<face_t>
                 //  FError("Didn't split the polygon");
             }
 
-            if (front) {
+            if (front && !back) {
+                // nothing could be cut off, so trying again won't either
+                chopped.push_back(std::move(front));
+            } else if (front) {
                 surfaces.push_back(std::move(front));
             }
             if (back) {
-- 
2.43.0


From ab91321ffcef8606ff94f7e56f07513d8e69c2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:10 +0000
Subject: [PATCH 20/37] fix: light crashes on faces without a lightmap surface
 (no model, fewer than 3 edges, bad texture axes)

---
 light/light.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/light/light.cc b/light/light.cc
index a971fcf..d340818 100644
--- a/light/light.cc
+++ b/light/light.cc
@@ -75,6 +75,13 @@ std::vector<lightsurf_t*> &EmissiveLightSurfaces()
     return emissive_light_surfaces;
 }
 
+// whether the face has a lightmap to fill in. CreateLightmapSurface makes none for degenerate faces,
+// faces that belong to no model and faces with invalid texture axes.
+static bool HasLightmapSurface(const mbsp_t *bsp, size_t facenum)
+{
+    return Face_IsLightmapped(bsp, &bsp->dfaces[facenum]) && light_surfaces[facenum].face;
+}
+
 static void UpdateEmissiveLightSurfacesList()
 {
     emissive_light_surfaces.clear();
@@ -787,7 +794,7 @@ static void LightWorld(bspdata_t *bspdata, const fs::path &source, bool forcedsc
 
     logging::header("Direct Lighting"); // mxd
     logging::parallel_for(static_cast<size_t>(0), bsp.dfaces.size(), [&bsp](size_t i) {
-        if (Face_IsLightmapped(&bsp, &bsp.dfaces[i])) {
+        if (HasLightmapSurface(&bsp, i)) {
 #if defined(HAVE_EMBREE) && defined(__SSE2__)
             _MM_SET_FLUSH_ZERO_MODE(_MM_FLUSH_ZERO_ON);
 #endif
@@ -808,7 +815,7 @@ static void LightWorld(bspdata_t *bspdata, const fs::path &source, bool forcedsc
             logging::header(fmt::format("Indirect Lighting (pass {0})", i).c_str()); // mxd
 
             logging::parallel_for(static_cast<size_t>(0), bsp.dfaces.size(), [i, &bsp](size_t f) {
-                if (Face_IsLightmapped(&bsp, &bsp.dfaces[f])) {
+                if (HasLightmapSurface(&bsp, f)) {
     #if defined(HAVE_EMBREE) && defined(__SSE2__)
                     _MM_SET_FLUSH_ZERO_MODE(_MM_FLUSH_ZERO_ON);
     #endif
@@ -822,7 +829,7 @@ static void LightWorld(bspdata_t *bspdata, const fs::path &source, bool forcedsc
     if (!light_options.nolighting.value()) {
         logging::header("Post-Processing"); // mxd
         logging::parallel_for(static_cast<size_t>(0), bsp.dfaces.size(), [&bsp](size_t i) {
-            if (Face_IsLightmapped(&bsp, &bsp.dfaces[i])) {
+            if (HasLightmapSurface(&bsp, i)) {
 #if defined(HAVE_EMBREE) && defined(__SSE2__)
                 _MM_SET_FLUSH_ZERO_MODE(_MM_FLUSH_ZERO_ON);
 #endif
-- 
2.43.0


From fc748e3e82245774a0f415152d579a092a5edc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:31 +0000
Subject: [PATCH 21/37] fix: light stores style 255, the end marker, among a
 face's styles

---
 light/write.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/light/write.cc b/light/write.cc
index 6d5c83e..54080db 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -691,7 +691,8 @@ int CalculateLightmapStyles(const mbsp_t *bsp, mface_t *face, facesup_t *facesup
     lightmapdict_t &lightmaps = lightsurf->lightmapsByStyle;
 
     size_t maxfstyles = std::min((size_t)light_options.facestyles.value(), facesup ? MAXLIGHTMAPSSUP : MAXLIGHTMAPS);
-    int maxstyle = facesup ? INVALID_LIGHTSTYLE : INVALID_LIGHTSTYLE_OLD;
+    // INVALID_LIGHTSTYLE_OLD marks the end of a face's styles, so it can't be stored there
+    int maxstyle = facesup ? INVALID_LIGHTSTYLE : INVALID_LIGHTSTYLE_OLD - 1;
 
     // intermediate collection for sorting lightmaps
     std::vector<std::pair<float, const lightmap_t *>> sortable;
-- 
2.43.0


From 0ee628cb35775dcc589b741e7a3017ef231950b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:31 +0000
Subject: [PATCH 22/37] fix: light loses or overlaps the standard lightmaps of
 faces with LMSHIFT

---
 light/write.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/light/write.cc b/light/write.cc
index 54080db..c03218d 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -1058,18 +1058,20 @@ void SaveLightmapSurfaces(bspdata_t *bspdata, const fs::path &source)
             } else if (faces_sup.empty()) {
                 SaveLightmapSurface(bsp, f, nullptr, nullptr, &surf, surf.extents, surf.extents, filebase, lit_filebase, lux_filebase, intermediate_data[i]);
             } else if (light_options.novanilla.value() || faces_sup[i].lmscale == face_modelinfo->lightmapscale) {
+                SaveLightmapSurface(bsp, f, &faces_sup[i], nullptr, &surf, surf.extents, surf.extents, filebase, lit_filebase, lux_filebase, intermediate_data[i]);
                 if (faces_sup[i].lmscale == face_modelinfo->lightmapscale) {
                     f->lightofs = faces_sup[i].lightofs;
                 } else {
                     f->lightofs = -1;
                 }
-                SaveLightmapSurface(bsp, f, &faces_sup[i], nullptr, &surf, surf.extents, surf.extents, filebase, lit_filebase, lux_filebase, intermediate_data[i]);
                 for (int j = 0; j < MAXLIGHTMAPS; j++) {
                     f->styles[j] =
                         faces_sup[i].styles[j] == INVALID_LIGHTSTYLE ? INVALID_LIGHTSTYLE_OLD : faces_sup[i].styles[j];
                 }
             } else {
-                SaveLightmapSurface(bsp, f, nullptr, nullptr, &surf, surf.extents, surf.vanilla_extents, filebase, lit_filebase, lux_filebase, intermediate_data[i]);
+                lightmap_intermediate_data_t vanilla_data = intermediate_data[i];
+                vanilla_data.lightofs = vanilla_data.vanilla_lightofs;
+                SaveLightmapSurface(bsp, f, nullptr, nullptr, &surf, surf.extents, surf.vanilla_extents, filebase, lit_filebase, lux_filebase, vanilla_data);
                 SaveLightmapSurface(bsp, f, &faces_sup[i], nullptr, &surf, surf.extents, surf.extents, filebase, lit_filebase, lux_filebase, intermediate_data[i]);
             }
         });
-- 
2.43.0


From 1a3eb3bc66a9a7376a0a918dfafce7a2c0953183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:31 +0000
Subject: [PATCH 23/37] fix: light -lmshift leaves stale lightmap offsets on
 faces without styles

---
 light/light.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/light/light.cc b/light/light.cc
index d340818..a3918b9 100644
--- a/light/light.cc
+++ b/light/light.cc
@@ -628,15 +628,15 @@ static void CreateLightmapSurfaces(mbsp_t *bsp)
                 for (size_t i = 0; i < MAXLIGHTMAPSSUP; i++) {
                     facesup->styles[i] = INVALID_LIGHTSTYLE;
                 }
-            } else {
-                face->lightofs = -1;
-                for (size_t i = 0; i < MAXLIGHTMAPS; i++) {
-                    face->styles[i] = INVALID_LIGHTSTYLE_OLD;
-                }
+            }
 
-                if (facesup_decoupled) {
-                    facesup_decoupled->offset = -1;
-                }
+            face->lightofs = -1;
+            for (size_t i = 0; i < MAXLIGHTMAPS; i++) {
+                face->styles[i] = INVALID_LIGHTSTYLE_OLD;
+            }
+
+            if (facesup_decoupled) {
+                facesup_decoupled->offset = -1;
             }
         }
 
-- 
2.43.0


From 8eb0868a49cb3dbf2613537e43642115a9f67e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:31 +0000
Subject: [PATCH 24/37] fix: light -lit2 writes data of the wrong size and
 reads outside of its buffers

---
 light/write.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/light/write.cc b/light/write.cc
index c03218d..17599b2 100644
--- a/light/write.cc
+++ b/light/write.cc
@@ -57,7 +57,7 @@ void WriteLitFile(const mbsp_t *bsp, const std::vector<facesup_t> &facesup, cons
 
     header.v1.version = version;
     header.v2.numsurfs = bsp->dfaces.size();
-    header.v2.lmsamples = bsp->dlightdata.size();
+    header.v2.lmsamples = lit_filebase.size() / 3;
 
     logging::print("Writing {}\n", litname);
     std::ofstream litfile(litname, std::ios_base::out | std::ios_base::binary);
@@ -78,8 +78,8 @@ void WriteLitFile(const mbsp_t *bsp, const std::vector<facesup_t> &facesup, cons
                 j++;
             litfile <= (uint8_t)j;
         }
-        litfile.write((const char *)lit_filebase.data(), bsp->dlightdata.size() * 3);
-        litfile.write((const char *)lux_filebase.data(), bsp->dlightdata.size() * 3);
+        litfile.write((const char *)lit_filebase.data(), lit_filebase.size());
+        litfile.write((const char *)lux_filebase.data(), lux_filebase.size());
     } else
         litfile.write((const char *)lit_filebase.data(), bsp->dlightdata.size() * 3);
 }
@@ -1036,7 +1036,8 @@ void SaveLightmapSurfaces(bspdata_t *bspdata, const fs::path &source)
             lit_filebase.resize(lightmap_size * 3);
         }
 
-        if (light_options.write_luxfile) {
+        // the .lit2 format holds directions too
+        if (light_options.write_luxfile || light_options.write_litfile == lightfile::lit2) {
             lux_filebase.resize(lightmap_size * 3);
         }
 
-- 
2.43.0


From fda33e7be1b3993166cca94f746940e645116040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:39 +0000
Subject: [PATCH 25/37] fix: light forgets style 255 when deciding whether
 LMSTYLE16 is needed

---
 light/light.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/light/light.cc b/light/light.cc
index a3918b9..fe8ef13 100644
--- a/light/light.cc
+++ b/light/light.cc
@@ -879,6 +879,9 @@ static void LightWorld(bspdata_t *bspdata, const fs::path &source, bool forcedsc
 
         needstyles |= (stylesperface > 4);
 
+        // INVALID_LIGHTSTYLE_OLD ends the styles stored in the faces
+        needstyles |= (maxstyle >= INVALID_LIGHTSTYLE_OLD);
+
         logging::print("max {} styles per face, {} used{}\n", light_options.facestyles.value(), stylesperface,
             maxstyle >= INVALID_LIGHTSTYLE_OLD ? ", 16bit lightstyles" : "");
 
-- 
2.43.0


From bfafad606a691505298071226591a27bb28ce6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:14 +0000
Subject: [PATCH 26/37] fix: light reads the texinfo.json key "no_phong" into
 no_expand

---
 light/light.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/light/light.cc b/light/light.cc
index fe8ef13..38acdab 100644
--- a/light/light.cc
+++ b/light/light.cc
@@ -1003,7 +1003,7 @@ static void LoadExtendedTexinfoFlags(const fs::path &sourcefilename, const mbsp_
             flags.no_expand = val.at("no_expand").get<bool>();
         }
         if (val.contains("no_phong")) {
-            flags.no_expand = val.at("no_phong").get<bool>();
+            flags.no_phong = val.at("no_phong").get<bool>();
         }
         if (val.contains("light_ignore")) {
             flags.light_ignore = val.at("light_ignore").get<bool>();
-- 
2.43.0


From ee0ca0922a6f4fb2b94b266e1a2f118710278257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:14 +0000
Subject: [PATCH 27/37] fix: qbsp leaves is_hintskip out of texinfo.json

---
 qbsp/writebsp.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qbsp/writebsp.cc b/qbsp/writebsp.cc
index 845be04..dd16748 100644
--- a/qbsp/writebsp.cc
+++ b/qbsp/writebsp.cc
@@ -378,6 +378,9 @@ static void WriteExtendedTexinfoFlags()
         if (tx.flags.is_hint) {
             t["is_hint"] = tx.flags.is_hint;
         }
+        if (tx.flags.is_hintskip) {
+            t["is_hintskip"] = tx.flags.is_hintskip;
+        }
         if (tx.flags.no_dirt) {
             t["no_dirt"] = tx.flags.no_dirt;
         }
-- 
2.43.0


From 22f65d833b43c42b6898b4c136c82696b6d28c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:50 +0000
Subject: [PATCH 28/37] fix: light zeroes all surface flags when texinfo.json
 belongs to another map

---
 light/light.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/light/light.cc b/light/light.cc
index 38acdab..37daf9d 100644
--- a/light/light.cc
+++ b/light/light.cc
@@ -971,7 +971,7 @@ static void LoadExtendedTexinfoFlags(const fs::path &sourcefilename, const mbsp_
 
         if (index >= bsp->texinfo.size()) {
             logging::print("WARNING: Extended texinfo flags in {} does not match bsp, ignoring\n", filename);
-            memset(extended_texinfo_flags.data(), 0, bsp->texinfo.size() * sizeof(surfflags_t));
+            extended_texinfo_flags.assign(bsp->texinfo.size(), surfflags_t{});
             return;
         }
 
-- 
2.43.0


From 603420a1c6844c40c8c526f40fcaead46f452025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:46 +0000
Subject: [PATCH 29/37] fix: qbsp fails on a _surflight_targetname that is not
 UTF-8

---
 light/light.cc   |  9 ++++++++-
 qbsp/writebsp.cc | 14 +++++++++++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/light/light.cc b/light/light.cc
index 37daf9d..f4e1510 100644
--- a/light/light.cc
+++ b/light/light.cc
@@ -1015,7 +1015,14 @@ static void LoadExtendedTexinfoFlags(const fs::path &sourcefilename, const mbsp_
             flags.surflight_style = val.at("surflight_style").get<int32_t>();
         }
         if (val.contains("surflight_targetname")) {
-            flags.surflight_targetname = val.at("surflight_targetname").get<std::string>();
+            auto &name = val.at("surflight_targetname");
+            if (name.is_array()) {
+                // not UTF-8
+                const auto bytes = name.get<std::vector<uint8_t>>();
+                flags.surflight_targetname = std::string(bytes.begin(), bytes.end());
+            } else {
+                flags.surflight_targetname = name.get<std::string>();
+            }
         }
         if (val.contains("surflight_color")) {
             flags.surflight_color = val.at("surflight_color").get<qvec3b>();
diff --git a/qbsp/writebsp.cc b/qbsp/writebsp.cc
index dd16748..401c9e1 100644
--- a/qbsp/writebsp.cc
+++ b/qbsp/writebsp.cc
@@ -339,6 +339,18 @@ void BeginBSPFile()
  * Writes extended texinfo flags to a file so they can be read by the light tool.
  * Used for phong shading and other lighting settings on func_detail.
  */
+// JSON strings have to be UTF-8; other names are stored as an array of bytes
+static json NameToJSON(const std::string &name)
+{
+    try {
+        json j = name;
+        j.dump();
+        return j;
+    } catch (const json::type_error &) {
+        return std::vector<uint8_t>(name.begin(), name.end());
+    }
+}
+
 static void WriteExtendedTexinfoFlags()
 {
     auto file = fs::path(qbsp_options.bsp_path).replace_extension("texinfo.json");
@@ -409,7 +421,7 @@ static void WriteExtendedTexinfoFlags()
             t["surflight_style"] = tx.flags.surflight_style.value();
         }
         if (tx.flags.surflight_targetname.has_value()) {
-            t["surflight_targetname"] = tx.flags.surflight_targetname.value();
+            t["surflight_targetname"] = NameToJSON(tx.flags.surflight_targetname.value());
         }
         if (tx.flags.surflight_color.has_value()) {
             t["surflight_color"] = tx.flags.surflight_color.value();
-- 
2.43.0


From 3ec5f5ddea05cdaf0ec5108d30c5eb9d28e85f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:20 +0000
Subject: [PATCH 30/37] fix: brushes in an antiregion are compiled all the same

The continue that was to skip the brush only continued the loop over the
antiregions.
---
 qbsp/brush.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/qbsp/brush.cc b/qbsp/brush.cc
index c65375b..32a2780 100644
--- a/qbsp/brush.cc
+++ b/qbsp/brush.cc
@@ -722,14 +722,21 @@ static void Brush_LoadEntity(mapentity_t &dst, mapentity_t &src, hull_index_t hu
                 }
             }
 
+            bool in_antiregion = false;
+
             for (auto &region : map.antiregions) {
                 if (!region.bounds.disjoint(mapbrush.bounds)) {
                     // stats.regioned_brushes++;
                     // it = entity.mapbrushes.erase(it);
                     // logging::print("removed broosh\n");
-                    continue;
+                    in_antiregion = true;
+                    break;
                 }
             }
+
+            if (in_antiregion) {
+                continue;
+            }
         }
 
         if (!hullnum.value_or(0)) {
-- 
2.43.0


From 1e9c5230e18aee42ad85efd9e4bcb92fb8fb1f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:20 +0000
Subject: [PATCH 31/37] fix: use after free when an entity outside the region
 is removed and there are antiregions

The removed entity's reference was checked against the antiregions, which
could remove another entity, or step past the end.
---
 qbsp/map.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qbsp/map.cc b/qbsp/map.cc
index 44e5e11..7e66003 100644
--- a/qbsp/map.cc
+++ b/qbsp/map.cc
@@ -3351,6 +3351,9 @@ void ProcessMapBrushes()
                 }
 
                 for (auto &region : map.antiregions) {
+                    if (removed) {
+                        break; // entity is gone
+                    }
                     if (region.bounds.containsPoint(entity.origin)) {
                         logging::print("removed {}\n", entity.epairs.get("classname"));
                         it = map.entities.erase(it);
-- 
2.43.0


From f92c22924588499c0e41514d05a9aa66b0c09795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:43 +0000
Subject: [PATCH 32/37] fix: a region or antiregion removes a worldspawn that
 has no brushes of its own

A map whose brushes are all in func_groups lost its world entity, and the
next entity was compiled in its place.
---
 qbsp/map.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qbsp/map.cc b/qbsp/map.cc
index 7e66003..c5c2e48 100644
--- a/qbsp/map.cc
+++ b/qbsp/map.cc
@@ -3344,7 +3344,7 @@ void ProcessMapBrushes()
 
             bool removed = false;
 
-            if (!entity.mapbrushes.size()) {
+            if (!map.is_world_entity(entity) && !entity.mapbrushes.size()) {
                 if (map.region && !map.region->bounds.containsPoint(entity.origin)) {
                     it = map.entities.erase(it);
                     removed = true;
-- 
2.43.0


From d81603049767353c26d1fd9976c140a3c8037588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:43 +0000
Subject: [PATCH 33/37] fix: the pieces of a chopped brush are not chopped by
 the brushes after it

ChopBrushes went on after the pieces instead of with the first of them, so
they kept overlapping other solid brushes.
---
 qbsp/brushbsp.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qbsp/brushbsp.cc b/qbsp/brushbsp.cc
index 8bb06bf..3175c87 100644
--- a/qbsp/brushbsp.cc
+++ b/qbsp/brushbsp.cc
@@ -1525,8 +1525,9 @@ newlist:
             if (c1 < c2) {
                 stats.c_from_split += sub.size();
                 auto before = list.erase(b1_it); // remove the current brush, go back one
+                auto first = sub.begin(); // stays valid when spliced
                 list.splice(before, sub); // splice new list in place of where the brush was
-                b1_it = before; // restart list with the new brushes
+                b1_it = first; // restart list with the new brushes
                 goto newlist;
             } else {
                 stats.c_from_split += sub2.size();
-- 
2.43.0


From 12e12b5158318249e6e5822f55a225e607aa5ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:27 +0000
Subject: [PATCH 34/37] fix: a lone - on the command line is reported instead
 of read past the end

---
 common/settings.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/settings.cc b/common/settings.cc
index c08fe4d..ee11809 100644
--- a/common/settings.cc
+++ b/common/settings.cc
@@ -671,7 +671,7 @@ std::vector<std::string> setting_container::parse(parser_base_t &parser)
         parser.parse_token();
 
         // remove leading hyphens. we support any number of them.
-        while (parser.token.front() == '-') {
+        while (!parser.token.empty() && parser.token.front() == '-') {
             parser.token.erase(parser.token.begin());
         }
 
-- 
2.43.0


From 5ee537dc6203cec6e0c29565ff7450a02f0753a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:38 +0000
Subject: [PATCH 35/37] fix: numeric settings keep only the low 32 bits of a
 larger number

---
 include/common/settings.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/common/settings.hh b/include/common/settings.hh
index 179e08f..2e00070 100644
--- a/include/common/settings.hh
+++ b/include/common/settings.hh
@@ -28,6 +28,7 @@
 #include <vector>
 #include <string>
 #include <cassert>
+#include <algorithm>
 #include <sstream>
 #include <map>
 #include <set>
@@ -305,7 +306,9 @@ public:
                 if constexpr (std::is_floating_point_v<T>) {
                     f = std::stod(parser.token);
                 } else {
-                    f = static_cast<T>(std::stoull(parser.token));
+                    // numbers that don't fit T saturate, so that set_value clamps them like any other
+                    f = static_cast<T>(std::clamp<long long>(std::stoll(parser.token),
+                        std::numeric_limits<T>::lowest(), std::numeric_limits<T>::max()));
                 }
                 // if no exception was thrown then we parsed a float/int here successfully
                 Q_assert(parser.parse_token());
-- 
2.43.0


From 4a10ae8c48d42dc1522f6947d0865c39187d1cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:15 +0000
Subject: [PATCH 36/37] fix: settings with named values accept numbers that are
 none of them

---
 include/common/settings.hh | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/common/settings.hh b/include/common/settings.hh
index 2e00070..99a822e 100644
--- a/include/common/settings.hh
+++ b/include/common/settings.hh
@@ -392,8 +392,13 @@ public:
         try {
             const int i = std::stoi(parser.token);
 
-            this->set_value(static_cast<T>(i), source);
-            return true;
+            // only numbers that are one of the values
+            for (auto &value : _values) {
+                if (static_cast<int>(value.second) == i) {
+                    this->set_value(value.second, source);
+                    return true;
+                }
+            }
         } catch (std::invalid_argument &) {
         } catch (std::out_of_range &) {
         }
-- 
2.43.0


From 9ab50a50b70636edb6806132583ac59f57d53cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:09:09 +0000
Subject: [PATCH 37/37] fix: light crashes writing the octree's debug file when
 the light grid is one point wide

---
 include/common/polylib.hh | 9 ++++++++-
 light/lightgrid.cc        | 3 +++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/common/polylib.hh b/include/common/polylib.hh
index ef21023..cba4f4e 100644
--- a/include/common/polylib.hh
+++ b/include/common/polylib.hh
@@ -1272,7 +1272,14 @@ public:
                 if (i == j)
                     continue;
 
-                result[i] = *result[i].clip_back(planes[j]);
+                // nothing is left of some sides of a box that is flat
+                auto clipped = result[i].clip_back(planes[j]);
+                if (!clipped) {
+                    result[i].clear();
+                    break;
+                }
+
+                result[i] = std::move(*clipped);
             }
         }
 
diff --git a/light/lightgrid.cc b/light/lightgrid.cc
index fc07839..77fc728 100644
--- a/light/lightgrid.cc
+++ b/light/lightgrid.cc
@@ -246,6 +246,9 @@ static std::vector<uint8_t> MakeOctreeLump(const mbsp_t &bsp, const lightgrid_ra
 
             auto bounds_windings = polylib::winding_t::aabb_windings(bounds);
             for (auto &w : bounds_windings) {
+                if (w.size() == 0)
+                    continue;
+
                 windings.push_back(std::move(w));
             }
         }
-- 
2.43.0

