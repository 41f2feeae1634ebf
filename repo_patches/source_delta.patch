From d41e6bca962e210e4c0ce524cf35ec4c4ae3f3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:54 +0000
Subject: [PATCH 01/53] fix: comment out the Source header lines of codec
 tables

They were parsed as table entries: the header's letters are not hex digits, and
an odd-length word made the table compiler read past its end.
---
 modules/inter/CASEFOLD.txt | 2 +-
 modules/inter/LOWER.txt    | 4 ++--
 modules/inter/UPPER.txt    | 4 ++--
 modules/inter/_NFC-MAP.txt | 2 +-
 modules/inter/_NFD.txt     | 2 +-
 modules/inter/_NFKD.txt    | 2 +-
 modules/to/_GB2312.txt     | 2 +-
 7 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/modules/inter/CASEFOLD.txt b/modules/inter/CASEFOLD.txt
index b3dc851..b34ffba 100644
--- a/modules/inter/CASEFOLD.txt
+++ b/modules/inter/CASEFOLD.txt
@@ -1,4 +1,4 @@
-Source: ftp://ftp.unicode.org/Public/13.0.0/ucd/CaseFolding.txt
+#Source: ftp://ftp.unicode.org/Public/13.0.0/ucd/CaseFolding.txt
 0141	0161
 0142	0162
 0143	0163
diff --git a/modules/inter/LOWER.txt b/modules/inter/LOWER.txt
index c594602..1f1ee16 100644
--- a/modules/inter/LOWER.txt
+++ b/modules/inter/LOWER.txt
@@ -1,5 +1,5 @@
-Source: ftp://ftp.unicode.org/Public/13.0.0/ucd/UnicodeData.txt
-Source: ftp://ftp.unicode.org/Public/13.0.0/ucd/SpecialCasing.txt
+#Source: ftp://ftp.unicode.org/Public/13.0.0/ucd/UnicodeData.txt
+#Source: ftp://ftp.unicode.org/Public/13.0.0/ucd/SpecialCasing.txt
 0141	0161
 0142	0162
 0143	0163
diff --git a/modules/inter/UPPER.txt b/modules/inter/UPPER.txt
index c90d952..aac6e0d 100644
--- a/modules/inter/UPPER.txt
+++ b/modules/inter/UPPER.txt
@@ -1,5 +1,5 @@
-Source: ftp://ftp.unicode.org/Public/13.0.0/ucd/UnicodeData.txt
-Source: ftp://ftp.unicode.org/Public/13.0.0/ucd/SpecialCasing.txt
+#Source: ftp://ftp.unicode.org/Public/13.0.0/ucd/UnicodeData.txt
+#Source: ftp://ftp.unicode.org/Public/13.0.0/ucd/SpecialCasing.txt
 0161	0141
 0162	0142
 0163	0143
diff --git a/modules/inter/_NFC-MAP.txt b/modules/inter/_NFC-MAP.txt
index 479943d..e994876 100644
--- a/modules/inter/_NFC-MAP.txt
+++ b/modules/inter/_NFC-MAP.txt
@@ -1,4 +1,4 @@
-Source: ftp://ftp.unicode.org/Public/13.0.0/ucd/UnicodeData.txt
+#Source: ftp://ftp.unicode.org/Public/13.0.0/ucd/UnicodeData.txt
 0141,010300	01C0
 0141,010301	01C1
 0141,010302	01C2
diff --git a/modules/inter/_NFD.txt b/modules/inter/_NFD.txt
index 1abea79..189ac1c 100644
--- a/modules/inter/_NFD.txt
+++ b/modules/inter/_NFD.txt
@@ -1,4 +1,4 @@
-Source: ftp://ftp.unicode.org/Public/13.0.0/ucd/UnicodeData.txt
+#Source: ftp://ftp.unicode.org/Public/13.0.0/ucd/UnicodeData.txt
 01C0	0141,010300
 01C1	0141,010301
 01C2	0141,010302
diff --git a/modules/inter/_NFKD.txt b/modules/inter/_NFKD.txt
index 221d231..1952fe5 100644
--- a/modules/inter/_NFKD.txt
+++ b/modules/inter/_NFKD.txt
@@ -1,4 +1,4 @@
-Source: ftp://ftp.unicode.org/Public/13.0.0/ucd/UnicodeData.txt
+#Source: ftp://ftp.unicode.org/Public/13.0.0/ucd/UnicodeData.txt
 01A0	0120	#noBreak
 01A8	0120,010308	#compat
 01AA	0161	#super
diff --git a/modules/to/_GB2312.txt b/modules/to/_GB2312.txt
index 00fab10..286bef9 100644
--- a/modules/to/_GB2312.txt
+++ b/modules/to/_GB2312.txt
@@ -1,4 +1,4 @@
-source:	#data
+#source:	#data
 013000	2121
 013001	2122
 013002	2123
-- 
2.43.0


From 1b5864e94366024b8a5d7d92baae22019d87f677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 02/53] fix: use shortest-form characters in the CP932, CP1253,
 CP874 and GB2312 tables

Units carry a character without leading zero bytes, so 0100A0 never matches
U+00A0 on encoding and is not the unit other encoders expect on decoding.
---
 modules/from/_CP932.txt | 16 ++++++++--------
 modules/to/_CP1253.txt  | 42 ++++++++++++++++++++---------------------
 modules/to/_CP874.txt   |  2 +-
 modules/to/_GB2312.txt  | 38 ++++++++++++++++++-------------------
 4 files changed, 49 insertions(+), 49 deletions(-)

diff --git a/modules/from/_CP932.txt b/modules/from/_CP932.txt
index 0669a23..11cc9c1 100644
--- a/modules/from/_CP932.txt
+++ b/modules/from/_CP932.txt
@@ -74,9 +74,9 @@ DF	01FF9F
 8149	01FF01
 814A	01309B
 814B	01309C
-814C	0100B4
+814C	01B4
 814D	01FF40
-814E	0100A8
+814E	01A8
 814F	01FF3E
 8150	01FFE3
 8151	01FF3F
@@ -123,9 +123,9 @@ DF	01FF9F
 817A	013011
 817B	01FF0B
 817C	01FF0D
-817D	0100B1
-817E	0100D7
-8180	0100F7
+817D	01B1
+817E	01D7
+8180	01F7
 8181	01FF1D
 8182	012260
 8183	01FF1C
@@ -136,7 +136,7 @@ DF	01FF9F
 8188	012234
 8189	012642
 818A	012640
-818B	0100B0
+818B	01B0
 818C	012032
 818D	012033
 818E	012103
@@ -149,7 +149,7 @@ DF	01FF9F
 8195	01FF06
 8196	01FF0A
 8197	01FF20
-8198	0100A7
+8198	01A7
 8199	012606
 819A	012605
 819B	0125CB
@@ -207,7 +207,7 @@ DF	01FF9F
 81F4	01266A
 81F5	012020
 81F6	012021
-81F7	0100B6
+81F7	01B6
 81FC	0125EF
 824F	01FF10
 8250	01FF11
diff --git a/modules/to/_CP1253.txt b/modules/to/_CP1253.txt
index b776acd..bd0407f 100644
--- a/modules/to/_CP1253.txt
+++ b/modules/to/_CP1253.txt
@@ -17,35 +17,35 @@
 012014	97
 012122	99
 01203A	9B
-0100A0	A0
+01A0	A0
 010385	A1
 010386	A2
-0100A3	A3
-0100A4	A4
-0100A5	A5
-0100A6	A6
-0100A7	A7
-0100A8	A8
-0100A9	A9
-0100AB	AB
-0100AC	AC
-0100AD	AD
-0100AE	AE
+01A3	A3
+01A4	A4
+01A5	A5
+01A6	A6
+01A7	A7
+01A8	A8
+01A9	A9
+01AB	AB
+01AC	AC
+01AD	AD
+01AE	AE
 012015	AF
-0100B0	B0
-0100B1	B1
-0100B2	B2
-0100B3	B3
+01B0	B0
+01B1	B1
+01B2	B2
+01B3	B3
 010384	B4
-0100B5	B5
-0100B6	B6
-0100B7	B7
+01B5	B5
+01B6	B6
+01B7	B7
 010388	B8
 010389	B9
 01038A	BA
-0100BB	BB
+01BB	BB
 01038C	BC
-0100BD	BD
+01BD	BD
 01038E	BE
 01038F	BF
 010390	C0
diff --git a/modules/to/_CP874.txt b/modules/to/_CP874.txt
index be22c7a..addafe8 100644
--- a/modules/to/_CP874.txt
+++ b/modules/to/_CP874.txt
@@ -8,7 +8,7 @@
 012022	95
 012013	96
 012014	97
-0100A0	A0
+01A0	A0
 010E01	A1
 010E02	A2
 010E03	A3
diff --git a/modules/to/_GB2312.txt b/modules/to/_GB2312.txt
index 286bef9..a1201f4 100644
--- a/modules/to/_GB2312.txt
+++ b/modules/to/_GB2312.txt
@@ -5,7 +5,7 @@
 0130FB	2124
 0102C9	2125
 0102C7	2126
-0100A8	2127
+01A8	2127
 013003	2128
 013005	2129
 012015	212A
@@ -30,9 +30,9 @@
 013017	213D
 013010	213E
 013011	213F
-0100B1	2140
-0100D7	2141
-0100F7	2142
+01B1	2140
+01D7	2141
+01F7	2142
 012236	2143
 012227	2144
 012228	2145
@@ -65,16 +65,16 @@
 012234	2160
 012642	2161
 012640	2162
-0100B0	2163
+01B0	2163
 012032	2164
 012033	2165
 012103	2166
 01FF04	2167
-0100A4	2168
+01A4	2168
 01FFE0	2169
 01FFE1	216A
 012030	216B
-0100A7	216C
+01A7	216C
 012116	216D
 012606	216E
 012605	216F
@@ -543,31 +543,31 @@
 01044E	2770
 01044F	2771
 010101	2821
-0100E1	2822
+01E1	2822
 0101CE	2823
-0100E0	2824
+01E0	2824
 010113	2825
-0100E9	2826
+01E9	2826
 01011B	2827
-0100E8	2828
+01E8	2828
 01012B	2829
-0100ED	282A
+01ED	282A
 0101D0	282B
-0100EC	282C
+01EC	282C
 01014D	282D
-0100F3	282E
+01F3	282E
 0101D2	282F
-0100F2	2830
+01F2	2830
 01016B	2831
-0100FA	2832
+01FA	2832
 0101D4	2833
-0100F9	2834
+01F9	2834
 0101D6	2835
 0101D8	2836
 0101DA	2837
 0101DC	2838
-0100FC	2839
-0100EA	283A
+01FC	2839
+01EA	283A
 013105	2845
 013106	2846
 013107	2847
-- 
2.43.0


From 16df67180c95689027f67dced7ededf348062e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 03/53] fix: the HTML entity of U+2203 is &exist;, not &exists;

---
 modules/from/ASCII-NAMED-HTML-ENTITY.txt | 2 +-
 modules/to/ASCII-NAMED-HTML-ENTITY.txt   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/from/ASCII-NAMED-HTML-ENTITY.txt b/modules/from/ASCII-NAMED-HTML-ENTITY.txt
index cfc6f1c..a71a244 100644
--- a/modules/from/ASCII-NAMED-HTML-ENTITY.txt
+++ b/modules/from/ASCII-NAMED-HTML-ENTITY.txt
@@ -194,7 +194,7 @@
 !2663726172723B	0121B5
 !26666F72616C6C3B	012200
 !26706172743B	012202
-!266578697374733B	012203
+!2665786973743B	012203
 !26656D7074793B	012205
 !266E61626C613B	012207
 !266973696E3B	012208
diff --git a/modules/to/ASCII-NAMED-HTML-ENTITY.txt b/modules/to/ASCII-NAMED-HTML-ENTITY.txt
index 2207ec3..cf22fd9 100644
--- a/modules/to/ASCII-NAMED-HTML-ENTITY.txt
+++ b/modules/to/ASCII-NAMED-HTML-ENTITY.txt
@@ -194,7 +194,7 @@
 0121B5	2663726172723B
 012200	26666F72616C6C3B
 012202	26706172743B
-012203	266578697374733B
+012203	2665786973743B
 012205	26656D7074793B
 012207	266E61626C613B
 012208	266973696E3B
-- 
2.43.0


From 98b35115540b2b859cc36af2d3fe400c3bd2ea76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:12 +0000
Subject: [PATCH 04/53] fix: rewind the input after a decoder's cbflush at a
 mismatch, so the rest of the chunk is not lost

---
 src/libbsdconv.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 4dab01c..830e5a4 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -642,13 +642,12 @@ void bsdconv(struct bsdconv_instance *ins){
 								if(this_phase->flags & F_MATCH){
 									if(this_phase->match_data){
 										LISTCPY_ST(ins, this_phase->data_tail, this_phase->match_data, this_codec->data_z);
-
-										LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
-										this_phase->curr=prev_phase->data_head;
-										this_phase->i=this_phase->data_head->len;
 									}else if(this_codec->cbflush){
 										this_codec->cbflush(ins);
 									}
+									LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
+									this_phase->curr=prev_phase->data_head;
+									this_phase->i=this_phase->data_head->len;
 									this_phase->flags &= ~F_MATCH;
 									RESET(ins->phase_index);
 									goto phase_begin;
-- 
2.43.0


From 2e926f82075e9732725d1c390c46daf988f2c381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:47 +0000
Subject: [PATCH 05/53] fix: reject one byte, not the rest of the chunks, when
 undecodable input spans chunks

---
 src/libbsdconv.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 830e5a4..2fa3196 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -666,8 +666,12 @@ void bsdconv(struct bsdconv_instance *ins){
 									RESET(ins->phase_index);
 									this_codec=THIS_CODEC(ins);
 
-									this_phase->bak=this_phase->curr;
-									LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
+									//reject exactly one byte: the first one which is still pending
+									while(prev_phase->data_head->next!=this_phase->curr && prev_phase->data_head->next->len<=this_phase->data_head->len){
+										this_phase->bak=prev_phase->data_head->next->next;
+										LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
+										this_phase->data_head->len=0;
+									}
 									this_phase->bak=this_phase->curr=prev_phase->data_head;
 									this_phase->i=this_phase->data_head->len=this_phase->data_head->len+1;
 									continue;
-- 
2.43.0


From cbea7f0fc78965c06ee40066d9818e6ed8551f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:20 +0000
Subject: [PATCH 06/53] fix: forget a half-read sequence when the flush rejects
 it, and do not free from/BSDCONV's buffer twice

---
 modules/from/BSDCONV.c | 1 +
 src/libbsdconv.c       | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/modules/from/BSDCONV.c b/modules/from/BSDCONV.c
index efc8c03..c94c9d1 100644
--- a/modules/from/BSDCONV.c
+++ b/modules/from/BSDCONV.c
@@ -27,6 +27,7 @@ void cbinit(struct bsdconv_instance *ins){
 	t->data.len=0;
 	if(t->data.data)
 		free(t->data.data);
+	t->data.data=NULL;
 	t->data.next=NULL;
 	t->flag=F_CLEAR;
 }
diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 2fa3196..484ff2b 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -1007,7 +1007,11 @@ void bsdconv(struct bsdconv_instance *ins){
 				this_phase=THIS_PHASE(ins);
 				this_codec=THIS_CODEC(ins);
 				switch(this_phase->type){
-					case FROM:	goto from_deadend;
+					case FROM:
+						//the decoder will not see the end of this sequence: forget its beginning
+						if(!(this_phase->flags & F_MATCH) && this_codec->cbinit)
+							this_codec->cbinit(ins);
+						goto from_deadend;
 					case INTER:	goto inter_deadend;
 					case TO:	goto to_deadend;
 				}
-- 
2.43.0


From e6a25ba800a1c2faf5c5b9a953c42f78557bbd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:44 +0000
Subject: [PATCH 07/53] fix: from/BSDCONV hands its buffer over to the unit it
 flushes

---
 modules/from/BSDCONV.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/from/BSDCONV.c b/modules/from/BSDCONV.c
index c94c9d1..50014d6 100644
--- a/modules/from/BSDCONV.c
+++ b/modules/from/BSDCONV.c
@@ -44,6 +44,11 @@ void cbflush(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	struct my_s *t=THIS_CODEC(ins)->priv;
 	LISTCPY(ins, this_phase->data_tail, &t->data);
+	//the emitted unit owns the buffer now
+	this_phase->data_tail->flags=F_FREE;
+	t->data.data=NULL;
+	t->data.len=0;
+	t->flag=F_CLEAR;
 }
 
 void cbconv(struct bsdconv_instance *ins){
-- 
2.43.0


From 237e2129e9711295b14ebf28ff5578dd316f74a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:33 +0000
Subject: [PATCH 08/53] fix: check that the inner conversion of ALIAS-*,
 TRIM-WIDTH and _NFC was created, and do not leak on a bad TRIM-WIDTH argument

---
 modules/inter/ALIAS-FROM.c  | 3 +++
 modules/inter/ALIAS-INTER.c | 3 +++
 modules/inter/TRIM-WIDTH.c  | 9 ++++++++-
 modules/inter/_NFC.c        | 5 +++++
 4 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/modules/inter/ALIAS-FROM.c b/modules/inter/ALIAS-FROM.c
index e9c9844..472a2a8 100644
--- a/modules/inter/ALIAS-FROM.c
+++ b/modules/inter/ALIAS-FROM.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 #include "../../src/bsdconv.h"
@@ -5,6 +6,8 @@
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	THIS_CODEC(ins)->priv=bsdconv_create("ASCII:PASS");
+	if(THIS_CODEC(ins)->priv==NULL)
+		return errno ? errno : EOPNOTSUPP;
 	return 0;
 }
 
diff --git a/modules/inter/ALIAS-INTER.c b/modules/inter/ALIAS-INTER.c
index 895e8be..98779c3 100644
--- a/modules/inter/ALIAS-INTER.c
+++ b/modules/inter/ALIAS-INTER.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdlib.h>
 #include <string.h>
 #include "../../src/bsdconv.h"
@@ -5,6 +6,8 @@
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	THIS_CODEC(ins)->priv=bsdconv_create("ASCII:PASS");
+	if(THIS_CODEC(ins)->priv==NULL)
+		return errno ? errno : EOPNOTSUPP;
 	return 0;
 }
 
diff --git a/modules/inter/TRIM-WIDTH.c b/modules/inter/TRIM-WIDTH.c
index 0b7dc8b..4d334be 100644
--- a/modules/inter/TRIM-WIDTH.c
+++ b/modules/inter/TRIM-WIDTH.c
@@ -29,15 +29,22 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 			r->width=i;
 			width_set=1;
 		}else{
+			free(r);
 			return EINVAL;
 		}
 		arg=arg->next;
 	}
 
-	if(width_set==0)
+	if(width_set==0){
+		free(r);
 		return EINVAL;
+	}
 
 	r->ins=bsdconv_create("WIDTH");
+	if(r->ins==NULL){
+		free(r);
+		return EOPNOTSUPP;
+	}
 	r->full=bsdconv_counter(r->ins, "FULL");
 	r->half=bsdconv_counter(r->ins, "HALF");
 	r->ambi=bsdconv_counter(r->ins, "AMBI");
diff --git a/modules/inter/_NFC.c b/modules/inter/_NFC.c
index 8d5370d..6d01173 100644
--- a/modules/inter/_NFC.c
+++ b/modules/inter/_NFC.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include "../../src/bsdconv.h"
 
 #include "_NF-CCC.h"
@@ -15,6 +16,10 @@ struct my_s {
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	struct my_s *r=THIS_CODEC(ins)->priv=malloc(sizeof(struct my_s));
 	r->map=bsdconv_create("_NFC-MAP,COUNT#ERR");
+	if(r->map==NULL){
+		free(r);
+		return EOPNOTSUPP;
+	}
 	r->err=bsdconv_counter(r->map, "ERR");
 	r->starter=NULL;
 	r->pending_tail=r->pending_head=malloc(sizeof(struct data_rt));
-- 
2.43.0


From 4abbe0d01b3451e76c8ceeb4ca7b7cbc718c7956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:19 +0000
Subject: [PATCH 09/53] fix: modules no longer crash or leak on missing
 argument values, missing environment variables and files that cannot be
 opened

---
 modules/from/BSDCONV-LOG.c  |  8 +++++++-
 modules/inter/INSERT.c      |  1 +
 modules/inter/PASS.c        |  2 +-
 modules/inter/SCORE-TRAIN.c | 12 +++++++-----
 modules/inter/SCORE.c       |  9 +++++----
 modules/inter/STRINGS.c     |  6 ++++--
 modules/to/BSDCONV-LOG.c    |  8 +++++++-
 7 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/modules/from/BSDCONV-LOG.c b/modules/from/BSDCONV-LOG.c
index 1483bf8..828f749 100644
--- a/modules/from/BSDCONV-LOG.c
+++ b/modules/from/BSDCONV-LOG.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include "../../src/bsdconv.h"
@@ -5,7 +6,12 @@
 #define TAILIZE(p) while(*p){ p++ ;}
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
-	THIS_CODEC(ins)->priv=fopen(getenv("BSDCONV_FROM_LOG"),"a");
+	char *path=getenv("BSDCONV_FROM_LOG");
+	if(path==NULL)
+		return EINVAL;
+	THIS_CODEC(ins)->priv=fopen(path,"a");
+	if(THIS_CODEC(ins)->priv==NULL)
+		return errno;
 	return 0;
 }
 
diff --git a/modules/inter/INSERT.c b/modules/inter/INSERT.c
index 6149aa2..04b08af 100644
--- a/modules/inter/INSERT.c
+++ b/modules/inter/INSERT.c
@@ -21,6 +21,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 		}else if(strcasecmp(arg->key, "BEFORE")==0){
 			before=arg->ptr;
 		}else{
+			free(r);
 			return EINVAL;
 		}
 		arg=arg->next;
diff --git a/modules/inter/PASS.c b/modules/inter/PASS.c
index 9cf376a..ebeceef 100644
--- a/modules/inter/PASS.c
+++ b/modules/inter/PASS.c
@@ -21,7 +21,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	while(arg){
 		if(strcasecmp(arg->key, "FOR")==0){
 			filter=arg->ptr;
-		}else if(strcasecmp(arg->key, "LIMIT")==0 && sscanf(arg->ptr, "%d", &i)==1){
+		}else if(strcasecmp(arg->key, "LIMIT")==0 && arg->ptr && sscanf(arg->ptr, "%d", &i)==1){
 			r->limit=i;
 		}else{
 			free(r);
diff --git a/modules/inter/SCORE-TRAIN.c b/modules/inter/SCORE-TRAIN.c
index 714501e..945cdf4 100644
--- a/modules/inter/SCORE-TRAIN.c
+++ b/modules/inter/SCORE-TRAIN.c
@@ -15,12 +15,13 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	char buf[256]={0};
 	char *p=getenv("BSDCONV_SCORE");
 	if(p==NULL){
-		strcpy(buf,getenv("HOME"));
-		strcat(buf,"/.bsdconv.score");
+		p=getenv("HOME");
+		snprintf(buf, sizeof(buf), "%s/.bsdconv.score", p ? p : "");
 		p=buf;
 	}
 	r->bak=fopen(p,"a"); //ensure file existence
-	fclose(r->bak);
+	if(r->bak)
+		fclose(r->bak);
 	r->bak=r->score=fopen(p,"rb+");
 	r->list=NULL;
 	THIS_CODEC(ins)->priv=r;
@@ -29,7 +30,8 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 
 void cbdestroy(struct bsdconv_instance *ins){
 	struct my_s *r=THIS_CODEC(ins)->priv;
-	fclose(r->bak);
+	if(r->bak)
+		fclose(r->bak);
 	free(r);
 }
 
@@ -59,7 +61,7 @@ void cbconv(struct bsdconv_instance *ins){
 	this_phase->data_tail=this_phase->data_tail->next;
 	this_phase->data_tail->next=NULL;
 
-	if(data[0]==0x1){
+	if(r->score && this_phase->curr->len>0 && data[0]==0x1){
 		for(i=1;i<this_phase->curr->len;++i){
 			ucs<<=8;
 			ucs|=data[i];
diff --git a/modules/inter/SCORE.c b/modules/inter/SCORE.c
index 34b5fc5..65b9c17 100644
--- a/modules/inter/SCORE.c
+++ b/modules/inter/SCORE.c
@@ -22,11 +22,12 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	char *scorer="CJK";
 	char *counter="SCORE";
 	while(arg){
-		if(strcasecmp(arg->key, "WITH")==0){
+		if(strcasecmp(arg->key, "WITH")==0 && arg->ptr){
 			scorer=arg->ptr;
-		}else if(strcasecmp(arg->key, "AS")==0){
+		}else if(strcasecmp(arg->key, "AS")==0 && arg->ptr){
 			counter=arg->ptr;
 		}else{
+			free(r);
 			return EINVAL;
 		}
 		arg=arg->next;
@@ -36,8 +37,8 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 		char *p=getenv("BSDCONV_SCORE");
 		if(p==NULL){
 			//try default score file
-			strcpy(buf,getenv("HOME"));
-			strcat(buf,"/.bsdconv.score");
+			p=getenv("HOME");
+			snprintf(buf, sizeof(buf), "%s/.bsdconv.score", p ? p : "");
 			p=buf;
 		}
 		r->bak=r->score=fopen(p,"rb+");
diff --git a/modules/inter/STRINGS.c b/modules/inter/STRINGS.c
index 14f0453..9e3d42b 100644
--- a/modules/inter/STRINGS.c
+++ b/modules/inter/STRINGS.c
@@ -23,9 +23,9 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	char *after="010A";
 	char *before=NULL;
 	while(arg){
-		if(strcasecmp(arg->key, "FOR")==0){
+		if(strcasecmp(arg->key, "FOR")==0 && arg->ptr){
 			filter=arg->ptr;
-		}else if(strcasecmp(arg->key, "MIN-LEN")==0 && sscanf(arg->ptr, "%d", &i)==1){
+		}else if(strcasecmp(arg->key, "MIN-LEN")==0 && arg->ptr && sscanf(arg->ptr, "%d", &i)==1){
 			r->min_len=i;
 		}else if(strcasecmp(arg->key, "AFTER")==0){
 			after=arg->ptr;
@@ -49,6 +49,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 		if(i){
 			if(r->after)
 				DATA_FREE(ins, r->after);
+			unload_filter(r->filter);
 			free(r);
 			return i;
 		}
@@ -61,6 +62,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 				DATA_FREE(ins, r->after);
 			if(r->before)
 				DATA_FREE(ins, r->before);
+			unload_filter(r->filter);
 			free(r);
 			return i;
 		}
diff --git a/modules/to/BSDCONV-LOG.c b/modules/to/BSDCONV-LOG.c
index 533e5ec..ccf7882 100644
--- a/modules/to/BSDCONV-LOG.c
+++ b/modules/to/BSDCONV-LOG.c
@@ -1,3 +1,4 @@
+#include <errno.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include "../../src/bsdconv.h"
@@ -5,7 +6,12 @@
 #define TAILIZE(p) while(*p){ p++ ;}
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
-	THIS_CODEC(ins)->priv=fopen(getenv("BSDCONV_TO_LOG"),"a");
+	char *path=getenv("BSDCONV_TO_LOG");
+	if(path==NULL)
+		return EINVAL;
+	THIS_CODEC(ins)->priv=fopen(path,"a");
+	if(THIS_CODEC(ins)->priv==NULL)
+		return errno;
 	return 0;
 }
 
-- 
2.43.0


From df58786695785f6f4c233fdecd0889df9aa0c766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:34 +0000
Subject: [PATCH 10/53] fix: BIG5-DEFRAG flushes what it holds, releases it,
 and does not read past one-byte units

---
 modules/inter/BIG5-DEFRAG.c | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/modules/inter/BIG5-DEFRAG.c b/modules/inter/BIG5-DEFRAG.c
index 90c4454..bcfcfab 100644
--- a/modules/inter/BIG5-DEFRAG.c
+++ b/modules/inter/BIG5-DEFRAG.c
@@ -8,12 +8,16 @@ struct my_s{
 };
 
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
-	THIS_CODEC(ins)->priv=malloc(sizeof(struct my_s));
+	struct my_s *r=THIS_CODEC(ins)->priv=malloc(sizeof(struct my_s));
+	r->p=NULL;
+	r->q=NULL;
 	return 0;
 }
 
 void cbinit(struct bsdconv_instance *ins){
 	struct my_s *r=THIS_CODEC(ins)->priv;
+	DATA_FREE(ins, r->p);
+	DATA_FREE(ins, r->q);
 	r->p=NULL;
 	r->q=NULL;
 	r->r=&(r->q);
@@ -21,7 +25,28 @@ void cbinit(struct bsdconv_instance *ins){
 }
 
 void cbdestroy(struct bsdconv_instance *ins){
-	free(THIS_CODEC(ins)->priv);
+	struct my_s *r=THIS_CODEC(ins)->priv;
+	DATA_FREE(ins, r->p);
+	DATA_FREE(ins, r->q);
+	free(r);
+}
+
+void cbflush(struct bsdconv_instance *ins){
+	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
+	struct my_s *r=THIS_CODEC(ins)->priv;
+
+	this_phase->data_tail->next=r->p;
+	while(this_phase->data_tail->next){
+		this_phase->data_tail=this_phase->data_tail->next;
+	}
+	this_phase->data_tail->next=r->q;
+	while(this_phase->data_tail->next){
+		this_phase->data_tail=this_phase->data_tail->next;
+	}
+	r->p=r->q=NULL;
+	r->r=&(r->q);
+	r->f=0;
+	this_phase->state.status=NEXTPHASE;
 }
 
 void cbconv(struct bsdconv_instance *ins){
@@ -31,13 +56,13 @@ void cbconv(struct bsdconv_instance *ins){
 	data=this_phase->curr->data;
 
 	if(r->f==0){
-		if(data[0]==0x3 && data[1]>0x7f){
+		if(this_phase->curr->len>1 && data[0]==0x3 && data[1]>0x7f){
 			r->f=1;
 			r->p=dup_data_rt(ins, this_phase->curr);
+			r->p->next=NULL;
 			this_phase->state.status=SUBMATCH;
 			return;
 		}else{
-			DATA_MALLOC(ins, this_phase->data_tail->next);
 			this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
 			this_phase->data_tail=this_phase->data_tail->next;
 			this_phase->data_tail->next=NULL;
@@ -45,7 +70,7 @@ void cbconv(struct bsdconv_instance *ins){
 			return;
 		}
 	}else if(r->f){
-		if(data[0]==0x1b){
+		if(this_phase->curr->len>0 && data[0]==0x1b){
 			*(r->r)=dup_data_rt(ins, this_phase->curr);
 			(*(r->r))->next=NULL;
 			r->r=&((*(r->r))->next);
@@ -60,6 +85,7 @@ void cbconv(struct bsdconv_instance *ins){
 
 			this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
 			this_phase->data_tail=this_phase->data_tail->next;
+			this_phase->data_tail->next=NULL;
 
 			if(r->q){
 				this_phase->data_tail->next=r->q;
-- 
2.43.0


From a8615fbce513a225f141226b18a70e836684801d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:04 +0000
Subject: [PATCH 11/53] fix: REPLACE, STRINGS, _NF-ORDER and _NFC no longer use
 or lose units they released or hold

---
 modules/inter/REPLACE.c   |  7 +++++++
 modules/inter/STRINGS.c   |  1 +
 modules/inter/_NF-ORDER.c | 17 ++++++++++++++++-
 modules/inter/_NFC.c      |  2 ++
 4 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/modules/inter/REPLACE.c b/modules/inter/REPLACE.c
index ebd0b64..00eae42 100644
--- a/modules/inter/REPLACE.c
+++ b/modules/inter/REPLACE.c
@@ -13,11 +13,17 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	int e;
 	r->from=NULL;
 	r->to=NULL;
+	if(arg==NULL){
+		free(r);
+		return EINVAL;
+	}
 	while(arg){
 		DATA_FREE(ins, r->from);
 		DATA_FREE(ins, r->to);
+		r->to=NULL;
 		r->from=str2data(arg->key, &e, ins);
 		if(e){
+			DATA_FREE(ins, r->from);
 			free(r);
 			return e;
 		}
@@ -29,6 +35,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 			r->to=str2data(arg->ptr, &e, ins);
 			if(e){
 				DATA_FREE(ins, r->from);
+				DATA_FREE(ins, r->to);
 				free(r);
 				return e;
 			}
diff --git a/modules/inter/STRINGS.c b/modules/inter/STRINGS.c
index 9e3d42b..55b0a05 100644
--- a/modules/inter/STRINGS.c
+++ b/modules/inter/STRINGS.c
@@ -121,6 +121,7 @@ void cbflush(struct bsdconv_instance *ins){
 				LISTCPY(ins, this_phase->data_tail, r->after);
 		}else{
 			DATA_FREE(ins, r->qh->next);
+			r->qh->next=NULL;
 			r->qt=r->qh;
 			r->acc_len=0;
 		}
diff --git a/modules/inter/_NF-ORDER.c b/modules/inter/_NF-ORDER.c
index 0b0a120..26ad9bf 100644
--- a/modules/inter/_NF-ORDER.c
+++ b/modules/inter/_NF-ORDER.c
@@ -26,6 +26,20 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	return 0;
 }
 
+static void drop(struct bsdconv_instance *ins, struct my_s *r){
+	while(r->head->next){
+		struct ll_s *next=r->head->next;
+		DATUM_FREE(ins, r->head->p);
+		free(r->head);
+		r->head=next;
+	}
+	r->head->prev=NULL;
+}
+
+void cbinit(struct bsdconv_instance *ins){
+	drop(ins, THIS_CODEC(ins)->priv);
+}
+
 void cbflush(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	struct my_s *r=THIS_CODEC(ins)->priv;
@@ -122,6 +136,7 @@ void cbconv(struct bsdconv_instance *ins){
 
 void cbdestroy(struct bsdconv_instance *ins){
 	struct my_s *r=THIS_CODEC(ins)->priv;
-	free(r->head);
+	drop(ins, r);
+	free(r->tail);
 	free(r);
 }
diff --git a/modules/inter/_NFC.c b/modules/inter/_NFC.c
index 6d01173..808520d 100644
--- a/modules/inter/_NFC.c
+++ b/modules/inter/_NFC.c
@@ -21,6 +21,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 		return EOPNOTSUPP;
 	}
 	r->err=bsdconv_counter(r->map, "ERR");
+	r->status=0;
 	r->starter=NULL;
 	r->pending_tail=r->pending_head=malloc(sizeof(struct data_rt));
 	r->pending_head->flags=0;
@@ -34,6 +35,7 @@ void cbinit(struct bsdconv_instance *ins){
 	struct data_rt *t;
 	if(r->starter){
 		DATUM_FREE(ins, r->starter);
+		r->starter=NULL;
 	}
 	while(r->pending_head->next){
 		t=r->pending_head->next->next;
-- 
2.43.0


From 5d63edb2ffbf0217942e67cff936e2c3898e99a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:08 +0000
Subject: [PATCH 12/53] fix: from/_JIS, CP950-UDA, _GB18030 and ESCAPE
 initialise, reset and release their state, and do not read past their buffers

---
 modules/from/CP950-UDA.c |  5 +++++
 modules/from/ESCAPE.c    |  4 ++--
 modules/from/_GB18030.c  |  2 +-
 modules/from/_JIS.c      | 16 ++++++++++++++++
 4 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/modules/from/CP950-UDA.c b/modules/from/CP950-UDA.c
index fcc4f89..e25351c 100644
--- a/modules/from/CP950-UDA.c
+++ b/modules/from/CP950-UDA.c
@@ -17,6 +17,11 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	return 0;
 }
 
+void cbinit(struct bsdconv_instance *ins){
+	struct my_s *r = THIS_CODEC(ins)->priv;
+	r->h = 0;
+}
+
 void cbdestroy(struct bsdconv_instance *ins){
 	struct my_s *r = THIS_CODEC(ins)->priv;
 	free(r);
diff --git a/modules/from/ESCAPE.c b/modules/from/ESCAPE.c
index fa5b8d2..7a39ad9 100644
--- a/modules/from/ESCAPE.c
+++ b/modules/from/ESCAPE.c
@@ -126,7 +126,7 @@ void cbconv(struct bsdconv_instance *ins){
 					i=t->buf[0];
 					i*=8;
 					i+=oct[(unsigned char)d];
-					if(i>377)
+					if(i>0377)
 						DEADEND();
 					t->buf[0]=i;
 					DATA_MALLOC(ins, this_phase->data_tail->next);
@@ -177,7 +177,7 @@ void cbconv(struct bsdconv_instance *ins){
 					i=0;
 					t->buf[1]*=16;
 					t->buf[1]+=hex[(unsigned char)d];
-					while(t->buf[i]==0)++i;
+					while(i<1 && t->buf[i]==0)++i;
 					DATA_MALLOC(ins, this_phase->data_tail->next);
 					this_phase->data_tail=this_phase->data_tail->next;
 					this_phase->data_tail->next=NULL;
diff --git a/modules/from/_GB18030.c b/modules/from/_GB18030.c
index 5ad6a57..e902c34 100644
--- a/modules/from/_GB18030.c
+++ b/modules/from/_GB18030.c
@@ -128,7 +128,7 @@ void cbconv(struct bsdconv_instance *ins){
 				}
 				if(gb18030_table[mid].beg<=t->ucs && t->ucs<=gb18030_table[mid].end){
 					ucs.ucs4=htobe32(gb18030_table[mid].off + (t->ucs - gb18030_table[mid].beg));
-					for(i=0;ucs.byte[i]==0 && i<4;++i);
+					for(i=0;i<4 && ucs.byte[i]==0;++i);
 					DATA_MALLOC(ins, this_phase->data_tail->next);
 					this_phase->data_tail=this_phase->data_tail->next;
 					this_phase->data_tail->next=NULL;
diff --git a/modules/from/_JIS.c b/modules/from/_JIS.c
index 67ebb02..8d3bfa5 100644
--- a/modules/from/_JIS.c
+++ b/modules/from/_JIS.c
@@ -29,21 +29,30 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	r->jis0208.desc="_JIS0208";
 	r->jis0212.desc="_JIS0212";
 	if(!loadcodec(&r->jis0201, FROM)){
+		free(r);
 		return 1;
 	}
 	if(!loadcodec(&r->jis0208, FROM)){
 		unloadcodec(&r->jis0201);
+		free(r);
 		return 1;
 	}
 	if(!loadcodec(&r->jis0212, FROM)){
 		unloadcodec(&r->jis0201);
 		unloadcodec(&r->jis0208);
+		free(r);
 		return 1;
 	}
 
 	return 0;
 }
 
+void cbinit(struct bsdconv_instance *ins){
+	struct my_s *r = THIS_CODEC(ins)->priv;
+	r->mode = MODE_ASCII;
+	r->state = 0;
+}
+
 void cbdestroy(struct bsdconv_instance *ins){
 	struct my_s *r = THIS_CODEC(ins)->priv;
 	unloadcodec(&r->jis0201);
@@ -90,6 +99,8 @@ void cbconv(struct bsdconv_instance *ins){
 						r->cstate = read_state(codec, 0);
 					}else{
 						this_phase->state.status = r->cstate.status;
+						if(r->cstate.status==DEADEND)
+							r->cstate = read_state(codec, 0);
 						return;
 					}
 					break;
@@ -106,6 +117,7 @@ void cbconv(struct bsdconv_instance *ins){
 						this_phase->state.status = CONTINUE;
 						return;
 					default:
+						r->state = 0;
 						this_phase->state.status = DEADEND;
 						return;
 				}
@@ -125,6 +137,7 @@ void cbconv(struct bsdconv_instance *ins){
 						this_phase->state.status = NEXTPHASE;
 						return;
 					default:
+						r->state = 0;
 						this_phase->state.status = DEADEND;
 						return;
 				}
@@ -153,6 +166,7 @@ void cbconv(struct bsdconv_instance *ins){
 						this_phase->state.status = NEXTPHASE;
 						return;
 					default:
+						r->state = 0;
 						this_phase->state.status = DEADEND;
 						return;
 				}
@@ -166,11 +180,13 @@ void cbconv(struct bsdconv_instance *ins){
 						this_phase->state.status = NEXTPHASE;
 						break;
 					default:
+						r->state = 0;
 						this_phase->state.status = DEADEND;
 						return;
 				}
 				break;
 			default:
+				r->state = 0;
 				this_phase->state.status = DEADEND;
 				return;
 	}
-- 
2.43.0


From d66cc994310aaedfc18bd118875b32a49b4eac64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:08 +0000
Subject: [PATCH 13/53] fix: to/ESCAPE, UTF-32BE/LE and _GB18030 reject
 over-long units instead of overflowing, and ESCAPE tolerates a missing prefix
 value

---
 modules/to/ESCAPE.c   | 8 ++++----
 modules/to/UTF-32BE.c | 4 ++++
 modules/to/UTF-32LE.c | 4 ++++
 modules/to/_GB18030.c | 4 ++++
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/modules/to/ESCAPE.c b/modules/to/ESCAPE.c
index ab6b147..3c527db 100644
--- a/modules/to/ESCAPE.c
+++ b/modules/to/ESCAPE.c
@@ -22,7 +22,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 	r->suffix.data=strdup("");
 	r->suffix.len=0;
 	while(arg){
-		if(strcasecmp(arg->key, "PREFIX")==0){
+		if(strcasecmp(arg->key, "PREFIX")==0 && arg->ptr){
 			free(r->prefix.data);
 			e=str2datum(arg->ptr, &(r->prefix));
 			if(e){
@@ -30,7 +30,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 				free(r);
 				return e;
 			}
-		}else if(strcasecmp(arg->key, "SUFFIX")==0){
+		}else if(strcasecmp(arg->key, "SUFFIX")==0 && arg->ptr){
 			free(r->suffix.data);
 			e=str2datum(arg->ptr, &(r->suffix));
 			if(e){
@@ -38,7 +38,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 				free(r);
 				return e;
 			}
-		}else if(strcasecmp(arg->key, "MODE")==0){
+		}else if(strcasecmp(arg->key, "MODE")==0 && arg->ptr){
 			if(strcasecmp(arg->ptr, "HEX")==0 || strcasecmp(arg->ptr, "16")==0){
 				r->mode=16;
 			}else if(strcasecmp(arg->ptr, "DEC")==0 || strcasecmp(arg->ptr, "10")==0){
@@ -51,7 +51,7 @@ int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
 				free(r);
 				return EINVAL;
 			}
-		}else if(strcasecmp(arg->key, "FOR")==0){
+		}else if(strcasecmp(arg->key, "FOR")==0 && arg->ptr){
 			if(strcasecmp(arg->ptr, "UNICODE")==0 || strcasecmp(arg->ptr, "1")==0 || strcasecmp(arg->ptr, "01")==0){
 				r->filter=1;
 			}else if(strcasecmp(arg->ptr, "BYTE")==0 || strcasecmp(arg->ptr, "3")==0 || strcasecmp(arg->ptr, "03")==0){
diff --git a/modules/to/UTF-32BE.c b/modules/to/UTF-32BE.c
index 200a14d..3842c7f 100644
--- a/modules/to/UTF-32BE.c
+++ b/modules/to/UTF-32BE.c
@@ -12,6 +12,10 @@ void cbconv(struct bsdconv_instance *ins){
 	this_phase->state.status=NEXTPHASE;
 	data+=1;
 	len=this_phase->curr->len-1;
+	if(len>4){
+		this_phase->state.status=DEADEND;
+		return;
+	}
 
 	DATA_MALLOC(ins, this_phase->data_tail->next);
 	this_phase->data_tail=this_phase->data_tail->next;
diff --git a/modules/to/UTF-32LE.c b/modules/to/UTF-32LE.c
index ab058ba..5d55c74 100644
--- a/modules/to/UTF-32LE.c
+++ b/modules/to/UTF-32LE.c
@@ -14,6 +14,10 @@ void cbconv(struct bsdconv_instance *ins){
 	this_phase->state.status=NEXTPHASE;
 	data+=1;
 	len=this_phase->curr->len-1;
+	if(len>4){
+		this_phase->state.status=DEADEND;
+		return;
+	}
 
 	DATA_MALLOC(ins, this_phase->data_tail->next);
 	this_phase->data_tail=this_phase->data_tail->next;
diff --git a/modules/to/_GB18030.c b/modules/to/_GB18030.c
index 457d69b..4ea431b 100644
--- a/modules/to/_GB18030.c
+++ b/modules/to/_GB18030.c
@@ -41,6 +41,10 @@ void cbconv(struct bsdconv_instance *ins){
 
 	data+=1;
 	len=this_phase->curr->len-1;
+	if(len>4){
+		this_phase->state.status=DEADEND;
+		return;
+	}
 
 	codepoint.num=0;
 	for(i=0;(len-i)>0;++i){
-- 
2.43.0


From 85303f7a09b337ba6e22f04bc34471f7498cbb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:43 +0000
Subject: [PATCH 14/53] fix: UTF-16/32 decode U+0000 as a character, CESU adds
 the surrogate offset, and code points over U+10FFFF need SUPER

---
 modules/from/UTF-16BE.c | 4 ++--
 modules/from/UTF-16LE.c | 4 ++--
 modules/from/UTF-32BE.c | 2 +-
 modules/from/UTF-32LE.c | 2 +-
 modules/from/_UTF-8.c   | 5 ++++-
 5 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/modules/from/UTF-16BE.c b/modules/from/UTF-16BE.c
index 6e77e22..f27248b 100644
--- a/modules/from/UTF-16BE.c
+++ b/modules/from/UTF-16BE.c
@@ -47,7 +47,7 @@ void cbconv(struct bsdconv_instance *ins){
 					continue;
 				}else{
 					t->status=0;
-					for(i=0;i<2;++i){
+					for(i=0;i<1;++i){
 						if(t->buf[i]) break;
 					}
 					l=(2-i)+1;
@@ -79,7 +79,7 @@ void cbconv(struct bsdconv_instance *ins){
 					buf[1]=(t->buf[1] << 2) & bb11111100;
 					buf[1] |= t->buf[2] & bb00000011;
 					buf[2]=t->buf[3];
-					for(i=0;i<3;++i){
+					for(i=0;i<2;++i){
 						if(buf[i]) break;
 					}
 					l=(3-i)+1;
diff --git a/modules/from/UTF-16LE.c b/modules/from/UTF-16LE.c
index 7bef7da..bd4062c 100644
--- a/modules/from/UTF-16LE.c
+++ b/modules/from/UTF-16LE.c
@@ -46,7 +46,7 @@ void cbconv(struct bsdconv_instance *ins){
 					continue;
 				}else{
 					t->status=0;
-					for(i=0;i<2;++i){
+					for(i=0;i<1;++i){
 						if(t->buf[i]) break;
 					}
 					l=(2-i)+1;
@@ -78,7 +78,7 @@ void cbconv(struct bsdconv_instance *ins){
 					buf[1]=(t->buf[1] << 2) & bb11111100;
 					buf[1] |= t->buf[2] & bb00000011;
 					buf[2]=t->buf[3];
-					for(i=0;i<3;++i){
+					for(i=0;i<2;++i){
 						if(buf[i]) break;
 					}
 					l=(3-i)+1;
diff --git a/modules/from/UTF-32BE.c b/modules/from/UTF-32BE.c
index 3c30195..92750ba 100644
--- a/modules/from/UTF-32BE.c
+++ b/modules/from/UTF-32BE.c
@@ -51,7 +51,7 @@ void cbconv(struct bsdconv_instance *ins){
 			case 3:
 				t->buf[3]=d;
 				t->status=0;
-				for(i=0;i<4;++i){
+				for(i=0;i<3;++i){
 					if(t->buf[i]) break;
 				}
 				l=(4-i)+1;
diff --git a/modules/from/UTF-32LE.c b/modules/from/UTF-32LE.c
index b2758ba..dfa9599 100644
--- a/modules/from/UTF-32LE.c
+++ b/modules/from/UTF-32LE.c
@@ -51,7 +51,7 @@ void cbconv(struct bsdconv_instance *ins){
 			case 3:
 				t->buf[0]=d;
 				t->status=0;
-				for(i=0;i<4;++i){
+				for(i=0;i<3;++i){
 					if(t->buf[i]) break;
 				}
 				l=(4-i)+1;
diff --git a/modules/from/_UTF-8.c b/modules/from/_UTF-8.c
index 884ee9a..5a3d2c6 100644
--- a/modules/from/_UTF-8.c
+++ b/modules/from/_UTF-8.c
@@ -64,6 +64,9 @@ void cbdestroy(struct bsdconv_instance *ins){
 	this_phase->state.status=NEXTPHASE;	\
 	t->status = 0;	\
 	uint32_t ucs = be32toh(t->ucs.ucs4);	\
+	if(ucs > 0x10FFFF && !t->super){	\
+		DEADEND();	\
+	}	\
 	if(ucs >= 0xD800 && ucs <= 0xDBFF){	\
 		if(t->cesu){	\
 			if(t->lead_surrogate.ucs4){	\
@@ -90,7 +93,7 @@ void cbdestroy(struct bsdconv_instance *ins){
 		if(t->cesu){	\
 			if(t->lead_surrogate.ucs4){	\
 				uint32_t cp = 0x10000;	\
-				cp |= ((be32toh(t->lead_surrogate.ucs4) - 0xD800) << 10) & bb11111111110000000000;	\
+				cp += ((be32toh(t->lead_surrogate.ucs4) - 0xD800) << 10) & bb11111111110000000000;	\
 				cp |= (ucs - 0xDC00) & bb1111111111;	\
 				t->ucs.ucs4 = htobe32(cp);	\
 				PASS(t->ucs);	\
-- 
2.43.0


From 28cb4b725287c782ddd268e1344e9eaa31a08b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:43 +0000
Subject: [PATCH 15/53] fix: the UTF-8 and UTF-16 encoders reject values over
 U+10FFFF instead of emitting another character

---
 modules/to/UTF-16BE.c | 4 ++++
 modules/to/UTF-16LE.c | 4 ++++
 modules/to/_UTF-8.c   | 5 ++++-
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/modules/to/UTF-16BE.c b/modules/to/UTF-16BE.c
index 8722088..7402967 100644
--- a/modules/to/UTF-16BE.c
+++ b/modules/to/UTF-16BE.c
@@ -10,6 +10,10 @@ void cbconv(struct bsdconv_instance *ins){
 	data=this_phase->curr->data;
 
 	data+=1;
+	if(this_phase->curr->len > 4 || (this_phase->curr->len > 3 && (unsigned char)*data > 0x10)){
+		this_phase->state.status=DEADEND;
+		return;
+	}
 	if(this_phase->curr->len > 3){
 		this_phase->state.status=NEXTPHASE;
 
diff --git a/modules/to/UTF-16LE.c b/modules/to/UTF-16LE.c
index 09f3e17..8b38f08 100644
--- a/modules/to/UTF-16LE.c
+++ b/modules/to/UTF-16LE.c
@@ -12,6 +12,10 @@ void cbconv(struct bsdconv_instance *ins){
 	data=this_phase->curr->data;
 
 	data+=1;
+	if(this_phase->curr->len > 4 || (this_phase->curr->len > 3 && (unsigned char)*data > 0x10)){
+		this_phase->state.status=DEADEND;
+		return;
+	}
 	if(this_phase->curr->len > 3){
 		this_phase->state.status=NEXTPHASE;
 
diff --git a/modules/to/_UTF-8.c b/modules/to/_UTF-8.c
index d6e1494..405acf1 100644
--- a/modules/to/_UTF-8.c
+++ b/modules/to/_UTF-8.c
@@ -20,8 +20,11 @@ void cbconv(struct bsdconv_instance *ins){
 	switch(len){
 		case 1:
 		case 2:
-		case 3:
 			break;
+		case 3:
+			/* RFC 3629 */
+			if((unsigned char)*data <= 0x10)
+				break;
 		default:
 			this_phase->state.status=DEADEND;
 			return;
-- 
2.43.0


From 7e65f1d8ba99e17e558570c0b55101743f191013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:43 +0000
Subject: [PATCH 16/53] fix: ASCII-HTML-INFO and ASCII-HTML-UNICODE-IMG do not
 overflow their buffers or use released units

---
 modules/to/ASCII-HTML-INFO.c        | 21 +++++++++++----------
 modules/to/ASCII-HTML-UNICODE-IMG.c |  2 +-
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/modules/to/ASCII-HTML-INFO.c b/modules/to/ASCII-HTML-INFO.c
index ef3ade9..1deae18 100644
--- a/modules/to/ASCII-HTML-INFO.c
+++ b/modules/to/ASCII-HTML-INFO.c
@@ -37,15 +37,16 @@ void cbconv(struct bsdconv_instance *ins){
 				cns->flush=1;
 				bsdconv(cns);
 				data_p=cns->phase[cns->phasen].data_head->next;
-				cns->phase[cns->phasen].data_head->next=NULL;
-				data=data_p->data;
-			}
-			if(*data==0x02){
-				goto converted;
-			}else{
-				this_phase->state.status=DEADEND;
-				if(data_p!=this_phase->curr)
+				if(data_p!=NULL){
+					cns->phase[cns->phasen].data_head->next=data_p->next;
+					if(data_p->next==NULL)
+						cns->phase[cns->phasen].data_tail=cns->phase[cns->phasen].data_head;
+					data=data_p->data;
+					if(data_p->len>0 && *data==0x02)
+						goto converted;
 					DATUM_FREE(ins, data_p);
+					data=this_phase->curr->data;
+				}
 			}
 			len=THIS_PHASE(ins)->curr->len-1;
 
@@ -93,7 +94,7 @@ void cbconv(struct bsdconv_instance *ins){
 			sprintf(p,"<a href=\"http://www.cns11643.gov.tw/AIDB/query_general_view.do?page=");
 			TAILIZE(p);
 			if(0<len){
-				sprintf(p,"%X",data[0]);
+				sprintf(p,"%X",(unsigned char)data[0]);
 				TAILIZE(p);
 			}
 			sprintf(p,"&code=");
@@ -105,7 +106,7 @@ void cbconv(struct bsdconv_instance *ins){
 			sprintf(p,"\"><img src=\"http://www.cns11643.gov.tw/AIDB/png.do?page=");
 			TAILIZE(p);
 			if(0<len){
-				sprintf(p,"%X",data[0]);
+				sprintf(p,"%X",(unsigned char)data[0]);
 				TAILIZE(p);
 			}
 			sprintf(p,"&code=");
diff --git a/modules/to/ASCII-HTML-UNICODE-IMG.c b/modules/to/ASCII-HTML-UNICODE-IMG.c
index 66751d8..b9ab625 100644
--- a/modules/to/ASCII-HTML-UNICODE-IMG.c
+++ b/modules/to/ASCII-HTML-UNICODE-IMG.c
@@ -10,7 +10,7 @@ void cbconv(struct bsdconv_instance *ins){
 	unsigned int len, i;
 	struct bsdconv_phase *this_phase=THIS_PHASE(ins);
 	data=this_phase->curr->data;
-	if(*data!=0x01){
+	if(*data!=0x01 || this_phase->curr->len > 5){
 		this_phase->state.status=DEADEND;
 		return;
 	}
-- 
2.43.0


From 3d895e38af61e0d9722245c2932f3d4524c4896e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:17 +0000
Subject: [PATCH 17/53] fix: mark surrogate-pair units of the UTF-16BE decoder
 as owning their data

---
 modules/from/UTF-16BE.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/from/UTF-16BE.c b/modules/from/UTF-16BE.c
index f27248b..aaebf0d 100644
--- a/modules/from/UTF-16BE.c
+++ b/modules/from/UTF-16BE.c
@@ -87,6 +87,7 @@ void cbconv(struct bsdconv_instance *ins){
 					this_phase->data_tail=this_phase->data_tail->next;
 					this_phase->data_tail->next=NULL;
 					this_phase->data_tail->len=l;
+					this_phase->data_tail->flags=F_FREE;
 					this_phase->data_tail->data=malloc(l);
 					CP(this_phase->data_tail->data)[0]=0x01;
 					memcpy(CP(this_phase->data_tail->data)+1, &buf[i], l-1);
-- 
2.43.0


From 1b5bb351a2cd7cfbd7532b259858d71d91267a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:26 +0000
Subject: [PATCH 18/53] fix: keep the lead surrogate the loose CESU decoder
 holds when the next bytes mismatch

---
 modules/from/_UTF-8.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/from/_UTF-8.c b/modules/from/_UTF-8.c
index 5a3d2c6..7af0b93 100644
--- a/modules/from/_UTF-8.c
+++ b/modules/from/_UTF-8.c
@@ -54,7 +54,9 @@ void cbdestroy(struct bsdconv_instance *ins){
 
 #define DEADEND() do{	\
 	t->status = 0;	\
-	t->lead_surrogate.ucs4 = 0;	\
+	if(!t->loose){ /* otherwise it is a match, to be flushed */	\
+		t->lead_surrogate.ucs4 = 0;	\
+	}	\
 	t->ucs.ucs4 = 0;	\
 	this_phase->state.status=DEADEND;	\
 	return;	\
-- 
2.43.0


From 248522eecf4d7642fc4a571ec5bb06b716a413a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:41 +0000
Subject: [PATCH 19/53] fix: bsdconv_modules_list leaves the working directory
 changed for an unknown type

---
 src/libbsdconv_module.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libbsdconv_module.c b/src/libbsdconv_module.c
index 2cc822b..8328c02 100644
--- a/src/libbsdconv_module.c
+++ b/src/libbsdconv_module.c
@@ -184,6 +184,8 @@ char ** bsdconv_modules_list(int phase_type){
 			type="scorer";
 			break;
 		default:
+			chdir(cwd);
+			free(cwd);
 			return list;
 	}
 	dir=opendir(type);
-- 
2.43.0


From 5078b0596520f60ae11108f14d9c966829843d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:41 +0000
Subject: [PATCH 20/53] fix: bsdconv_module_check opens a null name for an
 unknown type

---
 src/libbsdconv_module.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv_module.c b/src/libbsdconv_module.c
index 8328c02..55c0c95 100644
--- a/src/libbsdconv_module.c
+++ b/src/libbsdconv_module.c
@@ -126,7 +126,9 @@ int bsdconv_module_check(int type, const char *_codec){
 			break;
 	}
 
-	fp=fopen(codec, "rb");
+	fp=NULL;
+	if(codec!=NULL)
+		fp=fopen(codec, "rb");
 	if(fp!=NULL){
 		fclose(fp);
 		ret=1;
-- 
2.43.0


From 601f1d0474cc27941e8d9361f8689533e74e9925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:41 +0000
Subject: [PATCH 21/53] fix: bsdconv_unpack writes one element past the end of
 its phase list

---
 src/libbsdconv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 484ff2b..9c7e07c 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -315,7 +315,7 @@ struct bsdconv_instance *bsdconv_unpack(const char *_conversion){
 		if(*t==':' || *t=='|')++i;
 	}
 	ins->phasen=i;
-	char *phase_off[i+1];
+	char *phase_off[i+2];
 
 	ins->phase=malloc(sizeof(struct bsdconv_phase) * (i+1));
 
-- 
2.43.0


From 5bb5791ce732560eb85980b8bc38153d49437ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:41 +0000
Subject: [PATCH 22/53] fix: bsdconv_unpack leaks the earlier phases when a
 codec name is empty

---
 src/libbsdconv.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 9c7e07c..529c87b 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -370,6 +370,11 @@ struct bsdconv_instance *bsdconv_unpack(const char *_conversion){
 				for(;j>=0;--j){
 					free(ins->phase[i].codec[j].desc);
 				}
+				for(i=i-1;i>=1;--i){
+					for(j=0;j<=ins->phase[i].codecn;++j){
+						free(ins->phase[i].codec[j].desc);
+					}
+				}
 				for(i=1;i<=ins->phasen;++i){
 					free(ins->phase[i].codec);
 				}
-- 
2.43.0


From 42ebfcfd35d4884845926b7533485f4b7eaa6d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:41 +0000
Subject: [PATCH 23/53] fix: bsdconv_create destroys a conversion which is not
 built yet when a vital module is missing

---
 src/libbsdconv.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 529c87b..27746b3 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -428,7 +428,14 @@ struct bsdconv_instance *bsdconv_create(const char *_conversion){
 					if(bsdconv_module_vital(ins->phase[i].type, ins->phase[i].codec[j].desc)){
 						printf("error %s\n", ins->phase[i].codec[j].desc);
 						free(conversion);
-						bsdconv_destroy(ins);
+						for(i=1;i<=ins->phasen;++i){
+							for(j=0;j<=ins->phase[i].codecn;++j){
+								free(ins->phase[i].codec[j].desc);
+							}
+							free(ins->phase[i].codec);
+						}
+						free(ins->phase);
+						free(ins);
 						SetLastError(EDOOFUS);
 						return NULL;
 					}
-- 
2.43.0


From 737a6e733559c904819e80124c7c255405ecf7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:41 +0000
Subject: [PATCH 24/53] fix: bsdconv_create leaks codec names when a codec
 cannot be loaded

---
 src/libbsdconv.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 27746b3..50a3c8d 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -471,14 +471,19 @@ struct bsdconv_instance *bsdconv_create(const char *_conversion){
 	for(i=1;i<=ins->phasen;++i){
 		for(j=0;j<=ins->phase[i].codecn;++j){
 			if(!loadcodec(&ins->phase[i].codec[j], ins->phase[i].type)){
-				free(ins->phase[i].codec[j].desc);
-				j-=1;
-				for(;i>=1;j=ins->phase[--i].codecn){
-					for(;j>=0;--j){
-						free(ins->phase[i].codec[j].desc);
+				for(j=j-1;j>=0;--j){
+					unloadcodec(&ins->phase[i].codec[j]);
+				}
+				for(i=i-1;i>=1;--i){
+					for(j=0;j<=ins->phase[i].codecn;++j){
 						unloadcodec(&ins->phase[i].codec[j]);
 					}
 				}
+				for(i=1;i<=ins->phasen;++i){
+					for(j=0;j<=ins->phase[i].codecn;++j){
+						free(ins->phase[i].codec[j].desc);
+					}
+				}
 				goto bsdconv_create_error;
 			}
 		}
-- 
2.43.0


From 53bca0f8a21759f58981d5eff0e06a5f24c68a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:41 +0000
Subject: [PATCH 25/53] fix: bsdconv_create leaks pooled units when a codec
 refuses its arguments

---
 src/libbsdconv.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 50a3c8d..ac7fbec 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -545,6 +545,11 @@ bsdconv_create_error:
 	free(ins->phase);
 
 	void *p;
+	while(ins->pool){
+		p=ins->pool->next;
+		free(ins->pool);
+		ins->pool=p;
+	}
 	while(ins->hash){
 		free(ins->hash->key);
 		p=ins->hash->next;
-- 
2.43.0


From 847717c441370eafb4362c7f9802ff904b4ee26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 26/53] fix: bsdconv_create reads the arguments of an alias
 after releasing them

---
 src/libbsdconv.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index ac7fbec..6d0f0ec 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -394,7 +394,7 @@ struct bsdconv_instance *bsdconv_create(const char *_conversion){
 	struct bsdconv_instance *ins=NULL;
 	char *conversion=malloc(strlen(_conversion)+1);
 	int i, j;
-	char *c;
+	char *c, *old;
 	const char *d;
 	char whitespace[256]={0};
 	whitespace['\r']=1;
@@ -440,16 +440,19 @@ struct bsdconv_instance *bsdconv_create(const char *_conversion){
 						return NULL;
 					}
 					c=bsdconv_solve_alias(ins->phase[i].type, ins->phase[i].codec[j].desc);
+					old=NULL;
 					if(c==NULL){
 						e=1;
 					}else{
 						if(strcmp(c, ins->phase[i].codec[j].desc)==0)
 							e=1;
-						free(ins->phase[i].codec[j].desc);
+						//argv points into the old name
+						old=ins->phase[i].codec[j].desc;
 						ins->phase[i].codec[j].desc=c;
 					}
 					free(conversion);
 					conversion=bsdconv_pack(ins);
+					free(old);
 					for(i=1;i<=ins->phasen;++i){
 						for(j=0;j<=ins->phase[i].codecn;++j){
 							free(ins->phase[i].codec[j].desc);
-- 
2.43.0


From 2392ddd1cb70502d14b3ec740bae922e95bd1fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 27/53] fix: loadcodec uses an unresolved path, and appends the
 extension past the end of a long one

---
 src/libbsdconv.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 6d0f0ec..fd6108a 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -131,8 +131,9 @@ int _loadcodec(struct bsdconv_codec *cd, char *path){
 int loadcodec(struct bsdconv_codec *cd, int type){
 	char *cwd;
 	char *c;
-	char buf[PATH_MAX+1];
+	char buf[PATH_MAX+1+sizeof("." SHLIBEXT)];
 	char *upper;
+	int found;
 	cwd=getcwd(NULL, 0);
 	if((c=getenv("BSDCONV_PATH"))){
 		chdir(c);
@@ -153,10 +154,14 @@ int loadcodec(struct bsdconv_codec *cd, int type){
 	}
 	upper=strdup(cd->desc);
 	strtoupper(upper);
-	REALPATH(upper, buf);
+	found=REALPATH(upper, buf)!=0;
 	chdir(cwd);
 	free(cwd);
 	free(upper);
+	if(!found){
+		SetLastError(EOPNOTSUPP);
+		return 0;
+	}
 	if(!_loadcodec(cd, buf))
 		return 0;
 	return 1;
-- 
2.43.0


From 5b9184430b2317884a385767cc24ad44708f5ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 28/53] fix: load_filter and load_scorer use an unresolved
 path, and append the extension past the end of a long one

---
 src/libbsdconv_filter.c | 8 ++++++--
 src/libbsdconv_scorer.c | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/libbsdconv_filter.c b/src/libbsdconv_filter.c
index d386c4e..95bb010 100644
--- a/src/libbsdconv_filter.c
+++ b/src/libbsdconv_filter.c
@@ -4,6 +4,7 @@ struct bsdconv_filter *load_filter(const char *_name){
 	char *cwd;
 	char *c;
 	char path[PATH_MAX+1];
+	int found;
 	char *name=strdup(_name);
 	strtoupper(name);
 
@@ -25,11 +26,14 @@ struct bsdconv_filter *load_filter(const char *_name){
 	}
 	chdir(MODULES_SUBPATH);
 	chdir("filter");
-	REALPATH(name, path);
+	name=realloc(name, strlen(name)+sizeof("." SHLIBEXT));
+	strcat(name, "." SHLIBEXT);
+	found=REALPATH(name, path)!=0;
 	chdir(cwd);
 	free(cwd);
 	free(name);
-	strcat(path, "." SHLIBEXT);
+	if(!found)
+		return NULL;
 
 	filter=malloc(sizeof(struct bsdconv_filter));
 	filter->so=OPEN_SHAREOBJECT(path);
diff --git a/src/libbsdconv_scorer.c b/src/libbsdconv_scorer.c
index 69cda29..27d3373 100644
--- a/src/libbsdconv_scorer.c
+++ b/src/libbsdconv_scorer.c
@@ -4,6 +4,7 @@ struct bsdconv_scorer *load_scorer(const char *_name){
 	char *cwd;
 	char *c;
 	char path[PATH_MAX+1];
+	int found;
 	char *name=strdup(_name);
 	strtoupper(name);
 
@@ -25,11 +26,14 @@ struct bsdconv_scorer *load_scorer(const char *_name){
 	}
 	chdir(MODULES_SUBPATH);
 	chdir("scorer");
-	REALPATH(name, path);
+	name=realloc(name, strlen(name)+sizeof("." SHLIBEXT));
+	strcat(name, "." SHLIBEXT);
+	found=REALPATH(name, path)!=0;
 	chdir(cwd);
 	free(cwd);
 	free(name);
-	strcat(path, "." SHLIBEXT);
+	if(!found)
+		return NULL;
 
 	scorer=malloc(sizeof(struct bsdconv_scorer));
 	scorer->so=OPEN_SHAREOBJECT(path);
-- 
2.43.0


From 5de6ee85e5355d07b8ef2d4a2055764fdc656b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:07 +0000
Subject: [PATCH 29/53] fix: load_filter and load_scorer accept a module
 without its entry point

---
 src/libbsdconv_filter.c | 5 +++++
 src/libbsdconv_scorer.c | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/libbsdconv_filter.c b/src/libbsdconv_filter.c
index 95bb010..bf7aa86 100644
--- a/src/libbsdconv_filter.c
+++ b/src/libbsdconv_filter.c
@@ -43,6 +43,11 @@ struct bsdconv_filter *load_filter(const char *_name){
 	}
 
 	filter->cbfilter=SHAREOBJECT_SYMBOL(filter->so, "cbfilter");
+	if(!filter->cbfilter){
+		CLOSE_SHAREOBJECT(filter->so);
+		free(filter);
+		return NULL;
+	}
 
 	return filter;
 }
diff --git a/src/libbsdconv_scorer.c b/src/libbsdconv_scorer.c
index 27d3373..ac38bad 100644
--- a/src/libbsdconv_scorer.c
+++ b/src/libbsdconv_scorer.c
@@ -43,6 +43,11 @@ struct bsdconv_scorer *load_scorer(const char *_name){
 	}
 
 	scorer->cbscorer=SHAREOBJECT_SYMBOL(scorer->so, "cbscorer");
+	if(!scorer->cbscorer){
+		CLOSE_SHAREOBJECT(scorer->so);
+		free(scorer);
+		return NULL;
+	}
 
 	return scorer;
 }
-- 
2.43.0


From 83b5e7f83022be7abf08294e07414295c5ff8b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:08 +0000
Subject: [PATCH 30/53] fix: str2datum and str2data write past the end for an
 odd number of digits

---
 src/libbsdconv_util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libbsdconv_util.c b/src/libbsdconv_util.c
index 94e3bca..09dbac3 100644
--- a/src/libbsdconv_util.c
+++ b/src/libbsdconv_util.c
@@ -26,7 +26,7 @@ int str2datum(const char *s, struct data_rt *d){
 	d->len=0;
 	if(!s)
 		return EINVAL;
-	d->data=malloc(strlen(s)/2);
+	d->data=malloc((strlen(s)+1)/2);
 	d->flags=F_FREE;
 	d->next=NULL;
 	char f=0;
@@ -79,7 +79,7 @@ struct data_rt * str2data(const char *_s, int *r, struct bsdconv_instance *ins){
 		t->next=NULL;
 		t->len=0;
 		t->flags=F_FREE;
-		t->data=malloc(strlen(k)/2);
+		t->data=malloc((strlen(k)+1)/2);
 		f=0;
 		while(*k){
 			if(hex[(unsigned char) *k]<0){
-- 
2.43.0


From 7f545ac0cd6c1b028b65624f34abd09fbaef3c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 31/53] fix: bsdconv_hash_get returns the value of another key
 when the entry is not the first

---
 src/libbsdconv_hash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libbsdconv_hash.c b/src/libbsdconv_hash.c
index b9d0a8d..4d90d5e 100644
--- a/src/libbsdconv_hash.c
+++ b/src/libbsdconv_hash.c
@@ -34,7 +34,7 @@ void *bsdconv_hash_get(struct bsdconv_instance *ins, const char *key){
 			p->ptr=ins->hash->ptr;
 			ins->hash->key=tk;
 			ins->hash->ptr=tp;
-			return p->ptr;
+			return tp;
 		}
 		p=p->next;
 	}
-- 
2.43.0


From dfff0e8b784b79ff53559fb5597b8a621253ff52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 32/53] fix: bsdconv_hash_del follows a null entry, or unlinks
 the wrong one, when the entry is not the first

---
 src/libbsdconv_hash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libbsdconv_hash.c b/src/libbsdconv_hash.c
index 4d90d5e..d50371d 100644
--- a/src/libbsdconv_hash.c
+++ b/src/libbsdconv_hash.c
@@ -70,7 +70,7 @@ void bsdconv_hash_del(struct bsdconv_instance *ins, const char *key){
 			free(p);
 			return;
 		}
-		p=p->next;
 		q=&p->next;
+		p=p->next;
 	}
 }
-- 
2.43.0


From 1db24c322a9fc4de5413c73b2c1e48e58aa662a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 33/53] fix: the conversion editing calls access phases and
 codecs which do not exist

---
 src/libbsdconv_util.c | 46 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/src/libbsdconv_util.c b/src/libbsdconv_util.c
index 09dbac3..e330a71 100644
--- a/src/libbsdconv_util.c
+++ b/src/libbsdconv_util.c
@@ -131,6 +131,8 @@ int bsdconv_get_codec_index(struct bsdconv_instance *ins, int phasen, int codecn
 	 * real phases range is [0,len)=[0,codecn]
 	 */
 	phasen=bsdconv_get_phase_index(ins, phasen);
+	if(phasen<1 || phasen>ins->phasen)
+		return -1;
 
 	/* logical new index = len */
 	if(codecn /* logical */ >= ins->phase[phasen].codecn+1 /* len */ ){
@@ -153,6 +155,17 @@ char * bsdconv_insert_phase(const char *conversion, const char *codec, int phase
 	}
 
 	int phasen=bsdconv_get_phase_index(ins, ophasen);
+	if(phasen<1){
+		for(i=1;i<=ins->phasen;++i){
+			for(j=0;j<=ins->phase[i].codecn;++j){
+				free(ins->phase[i].codec[j].desc);
+			}
+			free(ins->phase[i].codec);
+		}
+		free(ins->phase);
+		free(ins);
+		return NULL;
+	}
 
 	ins->phasen+=1;
 	ins->phase=realloc(ins->phase, sizeof(struct bsdconv_phase) * (ins->phasen+1));
@@ -193,6 +206,17 @@ char * bsdconv_insert_codec(const char *conversion, const char *codec, int ophas
 
 	int phasen=bsdconv_get_phase_index(ins, ophasen);
 	int codecn=bsdconv_get_codec_index(ins, ophasen, ocodecn);
+	if(codecn<0){
+		for(i=1;i<=ins->phasen;++i){
+			for(j=0;j<=ins->phase[i].codecn;++j){
+				free(ins->phase[i].codec[j].desc);
+			}
+			free(ins->phase[i].codec);
+		}
+		free(ins->phase);
+		free(ins);
+		return NULL;
+	}
 
 	++ins->phase[phasen].codecn;
 	ins->phase[phasen].codec=realloc(ins->phase[phasen].codec, sizeof(struct bsdconv_codec)*(ins->phase[phasen].codecn+1));
@@ -228,6 +252,17 @@ char * bsdconv_replace_phase(const char *conversion, const char *codec, int phas
 	}
 
 	int phasen=bsdconv_get_phase_index(ins, ophasen);
+	if(phasen<1 || phasen>ins->phasen){
+		for(i=1;i<=ins->phasen;++i){
+			for(j=0;j<=ins->phase[i].codecn;++j){
+				free(ins->phase[i].codec[j].desc);
+			}
+			free(ins->phase[i].codec);
+		}
+		free(ins->phase);
+		free(ins);
+		return NULL;
+	}
 
 	for(j=0;j<=ins->phase[phasen].codecn;++j){
 		free(ins->phase[phasen].codec[j].desc);
@@ -264,6 +299,17 @@ char * bsdconv_replace_codec(const char *conversion, const char *codec, int opha
 
 	int phasen=bsdconv_get_phase_index(ins, ophasen);
 	int codecn=bsdconv_get_codec_index(ins, ophasen, ocodecn);
+	if(codecn<0 || codecn>ins->phase[phasen].codecn){
+		for(i=1;i<=ins->phasen;++i){
+			for(j=0;j<=ins->phase[i].codecn;++j){
+				free(ins->phase[i].codec[j].desc);
+			}
+			free(ins->phase[i].codec);
+		}
+		free(ins->phase);
+		free(ins);
+		return NULL;
+	}
 
 	free(ins->phase[phasen].codec[codecn].desc);
 	ins->phase[phasen].codec[codecn].desc=strdup(codec);
-- 
2.43.0


From ba7cd5193b1e4dae62429f6db7900ef0815a3087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 34/53] fix: bsdconv_pack truncates the name of a codec which
 expands to several ones

---
 src/libbsdconv.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index fd6108a..5d411d1 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -290,9 +290,10 @@ char *bsdconv_pack(struct bsdconv_instance *ins){
 					strcat(ret, ins->phase[i].codec[j].argv);
 				}
 				strcat(ret, end);
-				if(cur)
+				if(cur){
+					*cur=',';
 					t=cur+1;
-				else
+				}else
 					break;
 			}
 		}
-- 
2.43.0


From 5cae83fb8278b1ba5ace830f44169bd3488de55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:16 +0000
Subject: [PATCH 35/53] fix: bsdconv_pack joins conversions of a single phase

---
 src/libbsdconv.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 5d411d1..2664528 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -237,6 +237,7 @@ char *bsdconv_pack(struct bsdconv_instance *ins){
 	char *t, *cur;
 	const char *end;
 	int len=0;
+	int inside=0;
 	int i, j, n;
 	for(i=1;i<=ins->phasen;++i){
 		for(j=0;j<=ins->phase[i].codecn;++j){
@@ -258,17 +259,17 @@ char *bsdconv_pack(struct bsdconv_instance *ins){
 	for(i=1;i<=ins->phasen;++i){
 		for(j=0;j<=ins->phase[i].codecn;++j){
 			if(j==0){
+				//phases which stand alone are neither decoders nor encoders
 				if(i>1){
-					switch(ins->phase[i].type){
-						case FROM:
-							strcat(ret, "|");
-							break;
-						case INTER:
-						case TO:
-							strcat(ret, ":");
-						break;
-					}
+					if(inside && ins->phase[i].type!=FROM)
+						strcat(ret, ":");
+					else
+						strcat(ret, "|");
 				}
+				if(ins->phase[i].type==FROM)
+					inside=1;
+				else if(ins->phase[i].type==TO)
+					inside=0;
 			}else{
 				strcat(ret, ",");
 			}
-- 
2.43.0


From 3568585ee9ca108b761855181fb4ea3e4eb474c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:33 +0000
Subject: [PATCH 36/53] fix: conversion editing wraps some negative indices
 below the first phase or codec

---
 src/libbsdconv_util.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libbsdconv_util.c b/src/libbsdconv_util.c
index e330a71..acf0c93 100644
--- a/src/libbsdconv_util.c
+++ b/src/libbsdconv_util.c
@@ -120,8 +120,8 @@ int bsdconv_get_phase_index(struct bsdconv_instance *ins, int phasen){
 		/* real  = logical + 1 */
 		return ins->phasen + 1;
 	}else{
-		/* real  = (n + len) % (len) + 1*/
-		return (phasen + ins->phasen) % (ins->phasen) + 1;
+		/* real  = (n + len) % (len) + 1, less than 1 if there is no such phase */
+		return (phasen<0 ? phasen + ins->phasen : phasen) + 1;
 	}
 }
 
@@ -139,8 +139,8 @@ int bsdconv_get_codec_index(struct bsdconv_instance *ins, int phasen, int codecn
 		/* real  = logical */
 		return ins->phase[phasen].codecn+1;
 	}else{
-		/* real  = (n + len) % (len) */
-		return (codecn + ins->phase[phasen].codecn+1) % (ins->phase[phasen].codecn+1);
+		/* real  = (n + len) % (len), negative if there is no such codec */
+		return codecn<0 ? codecn + ins->phase[phasen].codecn+1 : codecn;
 	}
 }
 
-- 
2.43.0


From 8d4fd14fc8874115cf5da25fbdf440a075fd03a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:16 +0000
Subject: [PATCH 37/53] fix: keep the tail of the input list at its last datum

BSDCONV_PASS hands over a list of data as the input. Only the first of them was recorded as the tail of phase 0,
so as soon as some of the list stayed pending the next input overwrote the rest.
---
 src/libbsdconv.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 2664528..2d8887c 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -639,6 +639,9 @@ void bsdconv(struct bsdconv_instance *ins){
 		DATA_MALLOC(ins, ins->phase[0].data_tail->next);
 		ins->phase[0].data_tail=ins->phase[0].data_tail->next;
 		*(ins->phase[0].data_tail)=ins->input;
+		//the input may be a list of data, see BSDCONV_PASS
+		while(ins->phase[0].data_tail->next)
+			ins->phase[0].data_tail=ins->phase[0].data_tail->next;
 		ins->input.data=NULL;
 		ins->input.len=0;
 		ins->input.flags=0;
-- 
2.43.0


From c0f30a46c71e9e9b5c0131072066bdd0b1f2a6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:16 +0000
Subject: [PATCH 38/53] fix: encoders reject exactly one datum at a time

When a sequence of several data broke off, all of them were dropped, including data that can be encoded on their own, and
only one output error was counted.
---
 src/libbsdconv.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 2d8887c..7a43433 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -955,7 +955,11 @@ void bsdconv(struct bsdconv_instance *ins){
 							RESET(ins->phase_index);
 							this_codec=THIS_CODEC(ins);
 
-							this_phase->bak=this_phase->curr->next;
+							//reject exactly one datum: the first one which is still pending
+							this_phase->bak=prev_phase->data_head->next;
+							while(this_phase->bak->len==0 && this_phase->bak!=this_phase->curr)
+								this_phase->bak=this_phase->bak->next;
+							this_phase->bak=this_phase->bak->next;
 							LISTFREE(ins, prev_phase->data_head, this_phase->bak, prev_phase->data_tail);
 							this_phase->bak=this_phase->curr=prev_phase->data_head;
 
-- 
2.43.0


From f87cdb801e288a856fd836ed8b944a4a52c71f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:12 +0000
Subject: [PATCH 39/53] fix: ALIAS-INTER looks its module up when created, not
 while converting

---
 modules/inter/ALIAS-INTER.c | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/modules/inter/ALIAS-INTER.c b/modules/inter/ALIAS-INTER.c
index 98779c3..4fd0371 100644
--- a/modules/inter/ALIAS-INTER.c
+++ b/modules/inter/ALIAS-INTER.c
@@ -4,26 +4,40 @@
 #include "../../src/bsdconv.h"
 
 
+#define CNS11643_UNICODE "CNS11643-UNICODE"
+
+struct my_s{
+	struct bsdconv_instance *uni;
+	int has_cns11643_unicode;
+};
+
 int cbcreate(struct bsdconv_instance *ins, struct bsdconv_hash_entry *arg){
-	THIS_CODEC(ins)->priv=bsdconv_create("ASCII:PASS");
-	if(THIS_CODEC(ins)->priv==NULL)
+	struct my_s *r=malloc(sizeof(struct my_s));
+	r->uni=bsdconv_create("ASCII:PASS");
+	if(r->uni==NULL){
+		free(r);
 		return errno ? errno : EOPNOTSUPP;
+	}
+	//looking a module up changes the working directory for a moment, not to be done while converting
+	r->has_cns11643_unicode=bsdconv_module_check(INTER, CNS11643_UNICODE);
+	THIS_CODEC(ins)->priv=r;
 	return 0;
 }
 
 void cbdestroy(struct bsdconv_instance *ins){
-	bsdconv_destroy(THIS_CODEC(ins)->priv);
+	struct my_s *r=THIS_CODEC(ins)->priv;
+	bsdconv_destroy(r->uni);
+	free(r);
 }
 
-#define CNS11643_UNICODE "CNS11643-UNICODE"
-
 void cbconv(struct bsdconv_instance *ins){
 	struct bsdconv_phase *this_phase = THIS_PHASE(ins);
-	struct bsdconv_instance *uni = THIS_CODEC(ins)->priv;
+	struct my_s *r = THIS_CODEC(ins)->priv;
+	struct bsdconv_instance *uni = r->uni;
   int found = 0;
 	const char *s;
 
-  if(bsdconv_module_check(INTER, CNS11643_UNICODE)){
+  if(r->has_cns11643_unicode){
     found += 1;
     s = CNS11643_UNICODE;
     bsdconv_init(uni);
-- 
2.43.0


From c126cf3e4347b18b40e6d7b2849616791803070f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:54 +0000
Subject: [PATCH 40/53] fix: pass non-unicode data through Hangul decomposition

---
 modules/inter/_NF-HANGUL-DECOMPOSITION.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/inter/_NF-HANGUL-DECOMPOSITION.c b/modules/inter/_NF-HANGUL-DECOMPOSITION.c
index d882516..d584189 100644
--- a/modules/inter/_NF-HANGUL-DECOMPOSITION.c
+++ b/modules/inter/_NF-HANGUL-DECOMPOSITION.c
@@ -32,6 +32,10 @@ void cbconv(struct bsdconv_instance *ins){
 			this_phase->data_tail=this_phase->data_tail->next;
 			this_phase->data_tail->next=NULL;
 		}
+	}else{
+		this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
+		this_phase->data_tail=this_phase->data_tail->next;
+		this_phase->data_tail->next=NULL;
 	}
 
 	this_phase->state.status=NEXTPHASE;
-- 
2.43.0


From 21ca233919f0501271b836268f8141b68162b9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:28 +0000
Subject: [PATCH 41/53] fix: numeric character references: NUL, no digits,
 numbers too large

---
 modules/from/ASCII-NUMERIC-HTML-ENTITY.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
index b4527b0..dac899c 100644
--- a/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
+++ b/modules/from/ASCII-NUMERIC-HTML-ENTITY.c
@@ -46,11 +46,12 @@ void cbconv(struct bsdconv_instance *ins){
 
 	for(;this_phase->i<this_phase->curr->len;this_phase->i+=1){
 		d=CP(this_phase->curr->data)[this_phase->i];
+		if(d==';' && t->status==1000 && t->b==16) DEADEND();
 		if(d==';' && t->status){
 			//put data
 			t->buf.i=htobe32(t->buf.i);
 			for(i=0;i<4;i++){
-				if(t->buf.c[i] || j)
+				if(t->buf.c[i] || j || i==3)
 					ob[j++]=t->buf.c[i];
 			}
 			DATA_MALLOC(ins, this_phase->data_tail->next);
@@ -68,6 +69,7 @@ void cbconv(struct bsdconv_instance *ins){
 		if(t->status){
 			++t->status;
 			if(t->tbl[(unsigned char)d]==-1) DEADEND();
+			if(t->buf.i > UINT32_MAX/16) DEADEND();
 			t->buf.i*=t->b;
 			t->buf.i+=t->tbl[(unsigned char)d];
 		}else{
-- 
2.43.0


From 8940bd127692569a5c1645e84dec33a8e8d1bf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:07 +0000
Subject: [PATCH 42/53] fix: CP950-UDA: refuse bytes that are no trail byte

---
 modules/from/CP950-UDA.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/from/CP950-UDA.c b/modules/from/CP950-UDA.c
index e25351c..fdfe382 100644
--- a/modules/from/CP950-UDA.c
+++ b/modules/from/CP950-UDA.c
@@ -64,7 +64,9 @@ void cbconv(struct bsdconv_instance *ins){
 		}
 	}else{
 		uint32_t b = (r->h<<8)|d;
-		if(
+		if(d<0x40 || (d>0x7E && d<0xA1) || d==0xFF){
+			this_phase->state.status = DEADEND;
+		}else if(
 			(b>=0xFA40 && b<=0xFEFE)
 			||
 			(b>=0x8E40 && b<=0xA0FE)
-- 
2.43.0


From db45556f1df804f23e7241a190577f57e4f9abf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:30 +0000
Subject: [PATCH 43/53] fix: SCORE adds nothing for characters beyond the end
 of the score file

---
 modules/inter/SCORE.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/inter/SCORE.c b/modules/inter/SCORE.c
index 65b9c17..cb4fc1d 100644
--- a/modules/inter/SCORE.c
+++ b/modules/inter/SCORE.c
@@ -80,7 +80,7 @@ void cbconv(struct bsdconv_instance *ins){
 	FILE *fp=r->score;
 	int i;
 	uint32_t ucs=0;
-	unsigned char v;
+	unsigned char v=0;
 	uint32_t score;
 	data=this_phase->curr->data;
 
-- 
2.43.0


From a69cbb1c3520f23ce3ac4768744e4eb86e9b44b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:30 +0000
Subject: [PATCH 44/53] fix: AMBIGUOUS-UNPAD keeps other data and removes only
 the pad of an ambiguous character

---
 modules/inter/AMBIGUOUS-UNPAD.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/modules/inter/AMBIGUOUS-UNPAD.c b/modules/inter/AMBIGUOUS-UNPAD.c
index 1114ee5..192eee5 100644
--- a/modules/inter/AMBIGUOUS-UNPAD.c
+++ b/modules/inter/AMBIGUOUS-UNPAD.c
@@ -46,7 +46,7 @@ void cbconv(struct bsdconv_instance *ins){
 	this_phase->state.status=NEXTPHASE;
 
 	if(this_phase->curr->len>1 && data[0]==0x1){
-		if(r->s==1 && data[1]==0xA0){
+		if(r->s==1 && this_phase->curr->len==2 && data[1]==0xA0){
 			r->s=0;
 			return;
 		}else{
@@ -69,16 +69,14 @@ void cbconv(struct bsdconv_instance *ins){
 						break;
 					}
 			}
-			if(pad && r->dopad){
-				r->s=1;
-			}
+			r->s=(pad && r->dopad);
 		}
-		this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
-		this_phase->data_tail=this_phase->data_tail->next;
-		this_phase->data_tail->next=NULL;
 	}else{
 		r->s=0;
 	}
+	this_phase->data_tail->next=dup_data_rt(ins, this_phase->curr);
+	this_phase->data_tail=this_phase->data_tail->next;
+	this_phase->data_tail->next=NULL;
 
 	return;
 }
-- 
2.43.0


From 91cc1d63646c9df832183ac78c1347299c8881f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:51 +0000
Subject: [PATCH 45/53] fix: forget a half-matched sequence of an intermediate
 codec when the flush rejects it

---
 src/libbsdconv.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libbsdconv.c b/src/libbsdconv.c
index 7a43433..d05ac70 100644
--- a/src/libbsdconv.c
+++ b/src/libbsdconv.c
@@ -1051,7 +1051,10 @@ void bsdconv(struct bsdconv_instance *ins){
 						if(!(this_phase->flags & F_MATCH) && this_codec->cbinit)
 							this_codec->cbinit(ins);
 						goto from_deadend;
-					case INTER:	goto inter_deadend;
+					case INTER:
+						if(!(this_phase->flags & F_MATCH) && this_codec->cbinit)
+							this_codec->cbinit(ins);
+						goto inter_deadend;
 					case TO:	goto to_deadend;
 				}
 			}
-- 
2.43.0


From 0923b69edebb1174419bc06d948bc21d4b247bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:04 +0000
Subject: [PATCH 46/53] fix: in-place conversion keeps the original file when
 writing the new one fails

---
 src/bsdconv.c | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/bsdconv.c b/src/bsdconv.c
index 74794eb..c333253 100644
--- a/src/bsdconv.c
+++ b/src/bsdconv.c
@@ -79,6 +79,7 @@ int main(int argc, char *argv[]){
 	struct bsdconv_instance *ins;
 	FILE *inf=NULL, *otf=stdout;
 	int inplace=0;
+	int failed;
 	int i;
 
 	if(argc<2){
@@ -138,20 +139,39 @@ int main(int argc, char *argv[]){
 			otf=fdopen(fd, "wb");
 			if(!otf){
 				fprintf(stderr, "Unable to open output file for %s\n", argv[i]);
+				unlink(tmp);
+				free(tmp);
 				bsdconv_destroy(ins);
 				exit(1);
 			}
 #ifndef WIN32
 			struct stat stat;
-			fstat(fileno(inf), &stat);
-			fchown(fileno(otf), stat.st_uid, stat.st_gid);
-			fchmod(fileno(otf), stat.st_mode);
+			if((failed=fstat(fileno(inf), &stat))==0){
+				fchown(fileno(otf), stat.st_uid, stat.st_gid);
+				fchmod(fileno(otf), stat.st_mode);
+			}
+#else
+			failed=0;
 #endif
 			bsdconv_file(ins, inf, otf, argv[i]);
+			if(ferror(inf) || ferror(otf))
+				failed=1;
 			fclose(inf);
-			fclose(otf);
-			unlink(argv[i]);
-			rename(tmp,argv[i]);
+			if(fclose(otf)!=0)
+				failed=1;
+			if(!failed){
+#ifdef WIN32
+				unlink(argv[i]);
+#endif
+				failed=rename(tmp,argv[i]);
+			}
+			if(failed){
+				fprintf(stderr, "Failed saving %s.\n", argv[i]);
+				unlink(tmp);
+				free(tmp);
+				bsdconv_destroy(ins);
+				exit(1);
+			}
 			free(tmp);
 
 		}else{
-- 
2.43.0


From 76515c5ad70a9ddf43869cdc1f8a55b7fe0422b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:04 +0000
Subject: [PATCH 47/53] fix: bsdconv-dbg reads the big-endian offsets of a
 compiled table once

---
 src/bsdconv-dbg.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bsdconv-dbg.c b/src/bsdconv-dbg.c
index 22d4959..5e08e14 100644
--- a/src/bsdconv-dbg.c
+++ b/src/bsdconv-dbg.c
@@ -24,7 +24,7 @@ void print_state(struct state_rt *state){
 	printf("Beg: 0x%02X\n", (int)state->beg);
 	printf("End: 0x%02X\n", (int)state->end);
 	printf("Data:");
-	print_data((uintptr_t)de_offset(state->data));
+	print_data((uintptr_t)state->data);
 }
 
 void print_data(uintptr_t val){
@@ -34,8 +34,8 @@ void print_data(uintptr_t val){
 	if(val==0)
 		printf(" 0x0");
 	else while(val){
-		memcpy(&data, (char *)(cd.z+de_offset(val)), sizeof(struct data_st));
-		c=UCP(cd.z+(uintptr_t)data.data);
+		memcpy(&data, (char *)(cd.z+val), sizeof(struct data_st));
+		c=UCP(cd.z+(uintptr_t)de_offset(data.data));
 		for(i=0;i<data.len;++i){
 			printf("%02X", c[i]);
 		}
-- 
2.43.0


From ef1cf423c10b05136cc06420ea5d4e5fd320e990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:04 +0000
Subject: [PATCH 48/53] fix: bsdconv-mktable writes no uninitialised bytes into
 compiled tables

---
 src/bsdconv-mktable.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bsdconv-mktable.c b/src/bsdconv-mktable.c
index 6ad1cc3..24cb096 100644
--- a/src/bsdconv-mktable.c
+++ b/src/bsdconv-mktable.c
@@ -447,6 +447,7 @@ DPRINTF("%p[%X]=%p\n", todo_item->state, c, state_t);
 	}
 	state_t=state_r;
 	data_p=NULL;
+	memset(&dstate, 0, sizeof(dstate));
 	while(state_t){
 		hash_p=(struct hash *)state_t->data;
 		k=1;	//begin of data cell
-- 
2.43.0


From 5fb6af6bec972687cf566a9ae76ac822d89ce088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:04 +0000
Subject: [PATCH 49/53] fix: bsdconv-mktable no longer reads past the
 case-insensitivity table

---
 src/bsdconv-mktable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bsdconv-mktable.c b/src/bsdconv-mktable.c
index 24cb096..809331e 100644
--- a/src/bsdconv-mktable.c
+++ b/src/bsdconv-mktable.c
@@ -75,7 +75,7 @@ struct hash{
 };
 
 char table[256]={};
-char ci_table[256]={0};
+char ci_table[257]={0};
 
 uintptr_t offset=0;
 struct m_state_st *state_r, *state_t, holder;
-- 
2.43.0


From d1db0008bb618cfa6c347b673a29f44e46a78fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:04 +0000
Subject: [PATCH 50/53] fix: bsdconv-mktable keeps longer keys reachable when a
 shorter plain key is a prefix

---
 src/bsdconv-mktable.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/bsdconv-mktable.c b/src/bsdconv-mktable.c
index 809331e..9c442b2 100644
--- a/src/bsdconv-mktable.c
+++ b/src/bsdconv-mktable.c
@@ -408,6 +408,13 @@ DPRINTF("%p[%X]=%p\n", todo_item->state, c, state_t);
 							state_t->level=todo_item->state->base[c]->level;
 							DPRINTF("%p SUBROUTINE -> MATCH: %p\n", todo_item->state->base[c], state_t);
 							todo_item->state->base[c]=state_t;
+						}else if(
+							todo_item->state->base[c]->status==SUBMATCH
+							||
+							todo_item->state->base[c]->status==SUBMATCH_SUBROUTINE
+						){
+							DPRINTF("%p %d -> SUBMATCH for %s\n", todo_item->state->base[c], todo_item->state->base[c]->status, ot);
+							todo_item->state->base[c]->status=SUBMATCH;
 						}else{
 							DPRINTF("%p %d -> MATCH for %s\n", todo_item->state->base[c], todo_item->state->base[c]->status, ot);
 							todo_item->state->base[c]->status=MATCH;
-- 
2.43.0


From 11d82c439a981dc1eb0f3ad4fb0778e62c87058b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:08 +0000
Subject: [PATCH 51/53] fix: fold letters both ways, and only letters, in
 case-insensitive table keys

---
 src/bsdconv-mktable.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bsdconv-mktable.c b/src/bsdconv-mktable.c
index 9c442b2..78b1d70 100644
--- a/src/bsdconv-mktable.c
+++ b/src/bsdconv-mktable.c
@@ -178,9 +178,9 @@ int main(int argc, char *argv[]){
 	}
 
 	/* case insensitive table */
-	for(i=0;i<=26;++i){
+	for(i=0;i<26;++i){
 		ci_table['A'+i]='a'+i;
-		ci_table['a']='A'+i;
+		ci_table['a'+i]='A'+i;
 	}
 
 	if(argc!=3){
-- 
2.43.0


From 6c2b9a9e1a73dfdb5fdfe0cc4392d168b35096de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:20 +0000
Subject: [PATCH 52/53] fix: JIS decoder: ESC $ ( D, not ESC ( $ D, designates
 JIS X 0212

---
 modules/from/_JIS.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/modules/from/_JIS.c b/modules/from/_JIS.c
index 8d3bfa5..9750fb3 100644
--- a/modules/from/_JIS.c
+++ b/modules/from/_JIS.c
@@ -124,6 +124,10 @@ void cbconv(struct bsdconv_instance *ins){
 				break;
 			case 0x1B24:
 				switch(d){
+					case 0x28:
+						r->state = 0x1B2428;
+						this_phase->state.status = CONTINUE;
+						return;
 					case 0x40:
 						r->state = 0;
 						r->mode = MODE_JIS0208; //1978
@@ -144,10 +148,6 @@ void cbconv(struct bsdconv_instance *ins){
 				break;
 			case 0x1B28:
 				switch(d){
-					case 0x24:
-						r->state = 0x1B2824;
-						this_phase->state.status = CONTINUE;
-						return;
 					case 0x42:
 						r->state = 0;
 						r->mode = MODE_ASCII;
@@ -171,7 +171,7 @@ void cbconv(struct bsdconv_instance *ins){
 						return;
 				}
 				break;
-			case 0x1B2824:
+			case 0x1B2428:
 				switch(d){
 					case 0x44:
 						r->state = 0;
-- 
2.43.0


From fed5374f8ee45826d54fa5b272fad8c86d346a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:31 +0000
Subject: [PATCH 53/53] fix: JIS decoder: ESC ( I selects the katakana of JIS X
 0201

---
 modules/from/_JIS.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/modules/from/_JIS.c b/modules/from/_JIS.c
index 9750fb3..694fa34 100644
--- a/modules/from/_JIS.c
+++ b/modules/from/_JIS.c
@@ -7,6 +7,7 @@
 enum {
 	MODE_ASCII,
 	MODE_JIS0201,
+	MODE_JIS0201_KANA,
 	MODE_JIS0208,
 	MODE_JIS0212,
 };
@@ -84,6 +85,11 @@ void cbconv(struct bsdconv_instance *ins){
 						case MODE_JIS0201:
 							codec = &r->jis0201;
 							break;
+						case MODE_JIS0201_KANA:
+							codec = &r->jis0201;
+							if(d >= 0x21 && d <= 0x5F)
+								d |= 0x80;
+							break;
 						case MODE_JIS0208:
 							codec = &r->jis0208;
 							break;
@@ -155,7 +161,7 @@ void cbconv(struct bsdconv_instance *ins){
 						return;
 					case 0x49:
 						r->state = 0;
-						r->mode = MODE_JIS0201;
+						r->mode = MODE_JIS0201_KANA;
 						r->cstate = read_state(&r->jis0201, 0);
 						this_phase->state.status = NEXTPHASE;
 						return;
-- 
2.43.0

