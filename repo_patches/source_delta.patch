From 5c7b88bb4dddf196412ec1714617673960a03929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:52 +0000
Subject: [PATCH 01/59] fix: text wrapping below the scrolling region jumped
 into the region

A line wrapping on a row under the bottom of the scrolling region moved the
cursor to the region's last row and scrolled it.  A line feed there does not.
---
 libtty/tty.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 5133d26..9b583b9 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -405,11 +405,13 @@ static inline void tty_write_char(tty vt, ucs c)
         {
             CX=0;
             CY++;
-            if (CY>=vt->s2)
+            if (CY==vt->s2)
             {
                 CY=vt->s2-1;
                 SCROLL(1);
             }
+            else if (CY>=SY)
+                CY=SY-1;
         }
         else
             CX=SX-w;
-- 
2.43.0


From a8127b1f9491c25583a0844971becd211f233f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:58 +0000
Subject: [PATCH 02/59] fix: ESC[@, ESC[P and ESC[X past the last column left
 the parser inside CSI

With the cursor in the pending-wrap column they did nothing, but did not
return to the ground state either, so the text after them was eaten.
---
 libtty/tty.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 9b583b9..970670c 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -1009,6 +1009,7 @@ export void tty_write(tty vt, const char *buf, int len)
                     i=1;
                 if (i>SX-CX)
                     i=SX-CX;
+                vt->state=ESnormal;
                 if (i<=0)
                     break;
                 cjk_damage_left(vt, CX, true);
@@ -1028,7 +1029,6 @@ export void tty_write(tty vt, const char *buf, int len)
                         vt->l_char(vt, j, CY, vt->scr[CY*SX+j].ch,
                                               vt->scr[CY*SX+j].attr,
                                               mk_wcwidth(vt->scr[CY*SX+j].ch));
-                vt->state=ESnormal;
                 break;
 
             case 'P':   // ESC[P -> delete characters
@@ -1037,6 +1037,7 @@ export void tty_write(tty vt, const char *buf, int len)
                     i=1;
                 if (i>SX-CX)
                     i=SX-CX;
+                vt->state=ESnormal;
                 if (i<=0)
                     break;
                 cjk_damage_left(vt, CX, true);
@@ -1053,7 +1054,6 @@ export void tty_write(tty vt, const char *buf, int len)
                     }
                 }
                 tty_clear_region(vt, CY*SX+SX-i, i, false);
-                vt->state=ESnormal;
                 break;
 
             case 'X':   // ESC[X -> erase to the right
@@ -1062,12 +1062,12 @@ export void tty_write(tty vt, const char *buf, int len)
                     i=1;
                 if (i>SX-CX)
                     i=SX-CX;
+                vt->state=ESnormal;
                 if (!i)
                     break;
                 cjk_damage_left(vt, CX, true);
                 cjk_damage_right(vt, CX+i-1, true);
                 CLEAR(CX, CY, i);
-                vt->state=ESnormal;
                 break;
 
             case 'f': case 'H': // ESC[f, ESC[H -> move cursor
-- 
2.43.0


From 2e0dad43ee79ae52aebcb098c01acb674d30e4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:04 +0000
Subject: [PATCH 03/59] fix: SGR 38/48 with missing arguments used those of an
 earlier sequence

ESC[38m and the like looked at parameters that were never given, finding
whatever some previous sequence had left in their slots.
---
 libtty/tty.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index 970670c..1a8fb53 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -634,7 +634,7 @@ export void tty_write(tty vt, const char *buf, int len)
             case '[':
                 vt->state=ESsquare;
                 vt->ntok=0;
-                vt->tok[0]=0;
+                memset(vt->tok, 0, sizeof(vt->tok));
                 break;
 
             case ']':
-- 
2.43.0


From 6cc15b6f20d461ec116a1e1a0e0eebd264508bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:11 +0000
Subject: [PATCH 04/59] fix: an aborted OSC string leaked into the next one

CAN, SUB or a reset in the middle of an OSC, or an invalid command number,
left the string collected so far behind; a following \e]0\a took it for its
own, and one with a string of its own leaked it.
---
 libtty/tty.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index 1a8fb53..caf6e76 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -640,6 +640,8 @@ export void tty_write(tty vt, const char *buf, int len)
             case ']':
                 vt->state=ESosc;
                 vt->tok[0]=0;
+                free(vt->oscbuf); // left from an aborted command
+                vt->oscbuf=0;
                 break;
 
             case '(':
-- 
2.43.0


From 79cfa71b49a45b4382fb95c9c26722ce99934070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:59 +0000
Subject: [PATCH 05/59] fix: ESC[c cleared the screen with the attributes it
 was resetting

The blanks of a terminal reset to power-on defaults kept the old colours,
while listeners were told about default ones.
---
 libtty/tty.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index caf6e76..94ff792 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -245,11 +245,11 @@ static void tty_kill_comb_region(tty vt, int st, int l)
 
 export void tty_reset(tty vt)
 {
+    vt->attr=0;
     tty_clear_region(vt, 0, SX*SY, true);
     CX=CY=vt->save_cx=vt->save_cy=0;
     vt->s1=0;
     vt->s2=SY;
-    vt->attr=0;
     vt->state=ESnormal;
     vt->opt_auto_wrap=1;
     vt->opt_cursor=1;
-- 
2.43.0


From 40f133325c1669a6604dcf9439c3cf92f8759c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 06/59] fix: shrinking through a wide character left its
 combining marks on a blank

---
 libtty/tty.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index 94ff792..bf9af20 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -146,6 +146,7 @@ export int tty_resize(tty vt, int nsx, int nsy)
                 {
                     vt->scr[y*SX+nsx-1].ch=' ';
                     vt->scr[y*SX+nsx-1].attr&=~VT100_ATTR_CJK;
+                    tty_kill_comb(vt, &vt->scr[y*SX+nsx-1]);
                 }
         for (y=0;y<SY && y<nsy;y++)
             for (x=0;x<SX && x<nsx;x++)
-- 
2.43.0


From e0ff362fcad7df42f5c7a53542154acb116421c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:12 +0000
Subject: [PATCH 07/59] fix: tty_printf of 16384 or more bytes wrote the wrong
 buffer

The long string was formatted properly and then ignored: what got written
was the truncated stack buffer and whatever follows it.
---
 libtty/tty.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index bf9af20..21ec942 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -1275,7 +1275,7 @@ export void tty_printf(tty vt, const char *fmt, ...)
         va_end(ap);
         if (len<=0 || !bigstr)
             return;
-        tty_write(vt, buf, len);
+        tty_write(vt, bigstr, len);
         free(bigstr);
     }
     else if (len>=BUFFER_SIZE)
@@ -1285,7 +1285,7 @@ export void tty_printf(tty vt, const char *fmt, ...)
         va_start(ap, fmt);
         len=vsnprintf(bigstr, len+1, fmt, ap);
         va_end(ap);
-        tty_write(vt, buf, len);
+        tty_write(vt, bigstr, len);
         free(bigstr);
     }
     else
-- 
2.43.0


From c46ca0a9902cd27886b8c91d39a5274c00705cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:18 +0000
Subject: [PATCH 08/59] fix: tty_copy copied the listeners

The documentation says it does not.  A copy of a terminal with a vt-on-vt
redirection wrote to its stream, and freed its private data twice.
---
 libtty/tty.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index 21ec942..41495c9 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -189,6 +189,18 @@ export tty tty_copy(tty vt)
     if (!nvt)
         return 0;
     memcpy(nvt, vt, sizeof(struct tty));
+    nvt->l_data=0;
+    nvt->l_char=0;
+    nvt->l_comb=0;
+    nvt->l_cursor=0;
+    nvt->l_clear=0;
+    nvt->l_scroll=0;
+    nvt->l_flag=0;
+    nvt->l_osc=0;
+    nvt->l_resize=0;
+    nvt->l_flush=0;
+    nvt->l_bell=0;
+    nvt->l_free=0;
     if (!(nvt->scr=malloc(SX*SY*sizeof(attrchar))))
         goto drop_nvt;
     memcpy(nvt->scr, vt->scr, SX*SY*sizeof(attrchar));
-- 
2.43.0


From 851cce4bb8a847f2a8178e68269ee152ba1221a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:25 +0000
Subject: [PATCH 09/59] fix: ESC[r moved the cursor without telling listeners

---
 libtty/tty.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index 41495c9..58de391 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -942,6 +942,7 @@ export void tty_write(tty vt, const char *buf, int len)
                     vt->s2=vt->tok[1];
                     CX=0;
                     CY=vt->s1;
+                    L_CURSOR;
                 }
                 vt->state=ESnormal;
                 break;
-- 
2.43.0


From fe3db04fe7a28a5a353d984625afcbb461140ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:32 +0000
Subject: [PATCH 10/59] fix: ESC[c reset flags without telling listeners

---
 libtty/tty.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index 58de391..e0d2635 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -1129,6 +1129,11 @@ export void tty_write(tty vt, const char *buf, int len)
                 if (vt->l_clear)
                     vt->l_clear(vt, 0, 0, SX*SY);
                 L_CURSOR;
+                if (vt->l_flag)
+                {
+                    vt->l_flag(vt, VT100_FLAG_CURSOR, 1);
+                    vt->l_flag(vt, VT100_FLAG_KPAD, 0);
+                }
                 break;
 
             case 't':   // ESC[t -> window manipulation
-- 
2.43.0


From 9a8de12e02c3b43e25f8d317b4857de965b3d3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:39 +0000
Subject: [PATCH 11/59] fix: ESC[@ and ESC[P told listeners too little

The blanks ESC[P leaves at the end of the line, combining marks of moved
characters and the place of the cursor were not reported, while right halves
of wide characters were reported as if they were characters.
---
 libtty/tty.c | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index e0d2635..fd14a66 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -375,6 +375,23 @@ static void cjk_damage_right(tty vt, int x, bool notify)
 }
 
 
+// tell the listener about cells that have been moved around
+static void notify_cells(tty vt, int x, int end)
+{
+    for (; x<end; x++)
+    {
+        attrchar *ac = &vt->scr[CY*SX+x];
+        if (ac->ch == VT100_CJK_RIGHT)
+            continue; // goes together with its left half
+        if (vt->l_char)
+            vt->l_char(vt, x, CY, ac->ch, ac->attr&~VT100_ATTR_CJK,
+                       (ac->attr&VT100_ATTR_CJK)? 2 : 1);
+        if (vt->l_comb)
+            for (uint32_t i=ac->comb; i; i=vt->combs[i].next)
+                vt->l_comb(vt, x, CY, vt->combs[i].ch, ac->attr);
+    }
+}
+
 #define L_CURSOR {if (vt->l_cursor) vt->l_cursor(vt, CX, CY);}
 #define FLAG(opt,f,v) \
     {                                           \
@@ -1040,11 +1057,8 @@ export void tty_write(tty vt, const char *buf, int len)
                 for (int j=SX-CX-i-1;j>=0;j--)
                     vt->scr[CY*SX+CX+j+i]=vt->scr[CY*SX+CX+j];
                 tty_clear_region(vt, CY*SX+CX, i, false);
-                if (vt->l_char)
-                    for (int j=CX;j<SX;j++)
-                        vt->l_char(vt, j, CY, vt->scr[CY*SX+j].ch,
-                                              vt->scr[CY*SX+j].attr,
-                                              mk_wcwidth(vt->scr[CY*SX+j].ch));
+                notify_cells(vt, CX, SX);
+                L_CURSOR;
                 break;
 
             case 'P':   // ESC[P -> delete characters
@@ -1060,16 +1074,10 @@ export void tty_write(tty vt, const char *buf, int len)
                 cjk_damage_right(vt, CX+i-1, true);
                 tty_kill_comb_region(vt, CY*SX+CX, i);
                 for (int j=CX+i;j<SX;j++)
-                {
                     vt->scr[CY*SX+j-i]=vt->scr[CY*SX+j];
-                    if (vt->l_char)
-                    {
-                        vt->l_char(vt, j-i, CY, vt->scr[CY*SX+j].ch,
-                                                vt->scr[CY*SX+j].attr,
-                                                mk_wcwidth(vt->scr[CY*SX+j].ch));
-                    }
-                }
                 tty_clear_region(vt, CY*SX+SX-i, i, false);
+                notify_cells(vt, CX, SX);
+                L_CURSOR;
                 break;
 
             case 'X':   // ESC[X -> erase to the right
-- 
2.43.0


From 2e9bb21714b86a74b1857567ba4acd1de7f7c3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:45 +0000
Subject: [PATCH 12/59] fix: erasing half of a wide character lost the cursor
 of listeners

The other half is reported as a character written, which advances the
cursor; nothing told it has gone back.
---
 libtty/tty.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libtty/tty.c b/libtty/tty.c
index fd14a66..f08a9bd 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -980,6 +980,7 @@ export void tty_write(tty vt, const char *buf, int len)
                 case 2: // whole screen
                     CLEAR(0, 0, SX*SY);
                 }
+                L_CURSOR; // damage to CJK has moved it
                 vt->state=ESnormal;
                 break;
 
@@ -1001,6 +1002,7 @@ export void tty_write(tty vt, const char *buf, int len)
                 case 2: // whole line
                     CLEAR(0, CY, SX);
                 }
+                L_CURSOR;
                 vt->state=ESnormal;
                 break;
 
@@ -1092,6 +1094,7 @@ export void tty_write(tty vt, const char *buf, int len)
                 cjk_damage_left(vt, CX, true);
                 cjk_damage_right(vt, CX+i-1, true);
                 CLEAR(CX, CY, i);
+                L_CURSOR;
                 break;
 
             case 'f': case 'H': // ESC[f, ESC[H -> move cursor
-- 
2.43.0


From 802dd604be59baad175ec936eefac288d7f7e01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:55 +0000
Subject: [PATCH 13/59] fix: vt-on-vt lost track of the cursor after wide
 characters

---
 libtty/vtredir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index a18b30e..bd1cbcb 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -117,7 +117,7 @@ static void vtvt_char(tty vt, int x, int y, ucs ch, uint64_t attr, int width)
         else
             fprintf(DATA->f, "?");
     }
-    CX++;
+    CX+=width;
 }
 
 static void vtvt_comb(tty vt, int x, int y, ucs ch, uint64_t attr)
-- 
2.43.0


From 034422c237615aa8f919181cb40cbbe7fe9daac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:01 +0000
Subject: [PATCH 14/59] fix: vt-on-vt scrolled in lines with default attributes

The terminal being redirected fills them with the current ones.
---
 libtty/vtredir.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index bd1cbcb..086cf0c 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -181,12 +181,12 @@ static void vtvt_clear(tty vt, int x, int y, int len)
 
 static void vtvt_scroll(tty vt, int nl)
 {
+    setattr(vt, vt->attr);
     if (nl>0)
-        fprintf(DATA->f, "\e[0m\e[%d;%dr\e[%d;1f\e[%dM\e[r", vt->s1+1, vt->s2, vt->s1+1, nl);
+        fprintf(DATA->f, "\e[%d;%dr\e[%d;1f\e[%dM\e[r", vt->s1+1, vt->s2, vt->s1+1, nl);
     else if (nl<0)
-        fprintf(DATA->f, "\e[0m\e[%d;%dr\e[%d;1f\e[%dL\e[r", vt->s1+1, vt->s2, vt->s1+1, -nl);
+        fprintf(DATA->f, "\e[%d;%dr\e[%d;1f\e[%dL\e[r", vt->s1+1, vt->s2, vt->s1+1, -nl);
     CX=CY=-1;
-    DATA->attr=0;
 
 //  vtvt_dump(vt);
 }
-- 
2.43.0


From d6667e358907e2974f603edd4ae31078386bdc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:07 +0000
Subject: [PATCH 15/59] fix: vt-on-vt mishandled the column past the last one

The cursor can't be moved there, yet the redirection believed it could, and
then took shortcuts for erasing that depend on where the cursor is.
---
 libtty/vtredir.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 086cf0c..27ee8f9 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -72,6 +72,8 @@ static void vtvt_cursor(tty vt, int x, int y)
 {
     if (x==CX && y==CY)
         return;
+    if (x>=SX) // there's no way to go past the last column
+        x=SX-1;
     fprintf(DATA->f, "\e[%d;%df", y+1, x+1);
     CX=x;
     CY=y;
@@ -153,6 +155,8 @@ static void vtvt_clear(tty vt, int x, int y, int len)
 {
     int c;
 
+    if (x>=SX)
+        x=0, y++;
     setattr(vt, vt->attr);
     if (x==0 && y==0 && len==SX*SY)
         fprintf(DATA->f, "\e[2J");
-- 
2.43.0


From 5e8e2dba40cd708828df232d9225660956674398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:12 +0000
Subject: [PATCH 16/59] fix: vt-on-vt misplaced combining marks at the right
 edge or over wide glyphs

They also were missing from a dump of the screen.
---
 libtty/vtredir.c | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 27ee8f9..020bfd7 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -122,15 +122,37 @@ static void vtvt_char(tty vt, int x, int y, ucs ch, uint64_t attr, int width)
     CX+=width;
 }
 
+static void put_comb(tty vt, ucs ch)
+{
+    if (fprintf(DATA->f, "%lc", ch)<0)
+        clearerr(DATA->f); // No fallback, just ignore.
+}
+
+// draw a cell together with all its combining marks
+static void vtvt_cell(tty vt, int x, int y)
+{
+    attrchar *ac=&vt->scr[y*vt->sx+x];
+    vtvt_char(vt, x, y, ac->ch, ac->attr, mk_wcwidth(ac->ch));
+    for (uint32_t i=ac->comb; i; i=vt->combs[i].next)
+        put_comb(vt, vt->combs[i].ch);
+}
+
 static void vtvt_comb(tty vt, int x, int y, ucs ch, uint64_t attr)
 {
     if (x>=SX || y>SY)
         return;
-    if (x+1!=CX || y!=CY) // cursor should be _after_ the glyph
-        vtvt_cursor(vt, x+1, y);
+    int after=x+((attr&VT100_ATTR_CJK)? 2 : 1);
+    if (after!=CX || y!=CY) // cursor should be _after_ the glyph
+    {
+        if (after>=SX) // not reachable other than by writing the glyph
+        {
+            vtvt_cell(vt, x, y);
+            return;
+        }
+        vtvt_cursor(vt, after, y);
+    }
     setattr(vt, attr);
-    if (fprintf(DATA->f, "%lc", ch)<0)
-        clearerr(DATA->f); // No fallback, just ignore.
+    put_comb(vt, ch);
 }
 
 export void vtvt_dump(tty vt)
@@ -144,7 +166,7 @@ export void vtvt_dump(tty vt)
         for (x=0; x<vt->sx; x++)
         {
             if (ch->ch != VT100_CJK_RIGHT)
-                vtvt_char(vt, x, y, ch->ch, ch->attr, mk_wcwidth(ch->ch));
+                vtvt_cell(vt, x, y);
             ch++;
         }
     }
-- 
2.43.0


From c70409b2311872c3ccf8c53de6fba7e312f3141a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:18 +0000
Subject: [PATCH 17/59] fix: vt-on-vt left the cursor elsewhere after scrolling

A scroll notification comes without a separate one for the cursor, so until
the next character was written, the real cursor sat in the top left corner.
---
 libtty/vtredir.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 020bfd7..4d516ee 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -236,6 +236,7 @@ static void vtvt_resized(tty vt, int sx, int sy)
 
 static void vtvt_flush(tty vt)
 {
+    vtvt_cursor(vt, vt->cx, vt->cy);
     fflush(DATA->f);
 }
 
-- 
2.43.0


From 7ed96607929fd2df9e690fda744c88640b0c2a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 18/59] fix: vtvt_attach flushed stdout rather than its own
 stream

---
 libtty/vtredir.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 4d516ee..30f6c64 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -281,6 +281,6 @@ export void vtvt_attach(tty vt, FILE *f, int dump)
     {
         fprintf(DATA->f, "\ec");
         vtvt_dump(vt);
-        fflush(stdout);
+        fflush(f);
     }
 }
-- 
2.43.0


From 1f5f792a2b99c2b66648738dbf3baecc4a77c845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:13 +0000
Subject: [PATCH 19/59] fix: vt-on-vt scrolled the whole screen for a region of
 a single line

Inserting or deleting lines at the bottom of the scrolling region is such a
scroll; terminals do not accept regions that small.
---
 libtty/vtredir.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index 30f6c64..f4b2579 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -208,6 +208,13 @@ static void vtvt_clear(tty vt, int x, int y, int len)
 static void vtvt_scroll(tty vt, int nl)
 {
     setattr(vt, vt->attr);
+    if (vt->s2-vt->s1==1) // terminals refuse a region of a single line
+    {
+        fprintf(DATA->f, "\e[%d;1f\e[2K", vt->s1+1);
+        CX=0;
+        CY=vt->s1;
+        return;
+    }
     if (nl>0)
         fprintf(DATA->f, "\e[%d;%dr\e[%d;1f\e[%dM\e[r", vt->s1+1, vt->s2, vt->s1+1, nl);
     else if (nl<0)
-- 
2.43.0


From 052a9b8ab373a2ff475b7682812b08e1ff3d1ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:55 +0000
Subject: [PATCH 20/59] fix: the byte order mark was mistaken for U+FFEF

---
 libtty/tty.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/tty.c b/libtty/tty.c
index f08a9bd..485cb15 100644
--- a/libtty/tty.c
+++ b/libtty/tty.c
@@ -603,7 +603,7 @@ export void tty_write(tty vt, const char *buf, int len)
 
                 if (c<0xA0) // underlong or C1 controls
                     c=0xFFFD;
-                if (c==0xFFEF)  // BOM
+                if (c==0xFEFF)  // BOM
                     continue;
 
                 /* The following code deals with malformed UTF-16
-- 
2.43.0


From 73cf4ee8e8ff7595b697595e6febc896da5cdf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:26 +0000
Subject: [PATCH 21/59] fix: nh_recorder time stamps across the reader's blocks
 were misread, overflowing the buffer

---
 libtty/formats.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/libtty/formats.c b/libtty/formats.c
index a2e524e..3136eb8 100644
--- a/libtty/formats.c
+++ b/libtty/formats.c
@@ -345,20 +345,20 @@ static void play_nh_recorder(FILE *f,
     uint32_t t,tp;
 
     t=0;
-    i=b=0;
-    while ((b=fread(buf+b-i, 1, BUFFER_SIZE-(b-i), f))>0)
+    b=0;
+    while ((i=fread(buf+b, 1, BUFFER_SIZE-b, f))>0)
     {
+        b+=i;
         i0=0;
         for (i=0;i<b;i++)
             if (!buf[i])
             {
                 if (i0<i)
                     synch_print(buf+i0, i-i0, arg);
-                if (i+4>b)      // timestamp happened on a block boundary
+                if (i+5>b)      // timestamp happened on a block boundary
                 {
-                    if (b<5)    // incomplete last timestamp
-                        return;
-                    memmove(buf+i, buf, b-i);
+                    b-=i;
+                    memmove(buf, buf+i, b);
                     goto block_end;
                 }
                 else
@@ -374,6 +374,7 @@ static void play_nh_recorder(FILE *f,
             }
         if (i0<i)
             synch_print(buf+i0, i-i0, arg);
+        b=0;
     block_end:;
         // FIXME: frames shouldn't get split just because not being aligned
         // to our read block
-- 
2.43.0


From 86fb2a639c7e9789cbdaf0ae68cddeceb401eab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:48 +0000
Subject: [PATCH 22/59] fix: nh_recorder stamped each frame with the time of
 the one before

---
 libtty/formats.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/formats.c b/libtty/formats.c
index 3136eb8..819eee0 100644
--- a/libtty/formats.c
+++ b/libtty/formats.c
@@ -400,9 +400,9 @@ static void record_nh_recorder(FILE *f, void* state, const struct timeval *tm, c
     i=(tm->tv_sec-((struct timeval*)state)->tv_sec)*100+
       (tm->tv_usec-((struct timeval*)state)->tv_usec)/10000;
 
-    fwrite(buf, 1, len, f);
     fwrite("\0", 1, 1, f);
     fwrite(&i, 1, 4, f);
+    fwrite(buf, 1, len, f);
 }
 
 static void record_nh_recorder_finish(FILE *f, void* state)
-- 
2.43.0


From ab98ce60fff57863e388e39bb7a4b0401bf4ab7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:37 +0000
Subject: [PATCH 23/59] fix: asciicast recorder didn't escape backslashes

---
 libtty/asciicast.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 7f062c7..48bb18f 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -548,6 +548,8 @@ void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char
                 fprintf(f, "\\u%04x", *buf);
         else if (*buf=='"')
             fputs("\\\"", f);
+        else if (*buf=='\\')
+            fputs("\\\\", f);
         else
             fputc(*buf, f);
         buf++;
-- 
2.43.0


From 5e3f8e387845176ad5a11294d0405a8a66cb73bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:42 +0000
Subject: [PATCH 24/59] fix: asciicast-v1 recorder lost the delay after a frame
 at 0:0

---
 libtty/asciicast.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 48bb18f..37d83a6 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -528,10 +528,7 @@ void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char
         else
             as->need_comma = true;
         struct timeval ts = *tm;
-        if (as->ts.tv_sec || as->ts.tv_usec)
-            tsub(ts, as->ts);
-        else
-            ts.tv_sec = ts.tv_usec = 0;
+        tsub(ts, as->ts);
         as->ts = *tm;
         fprintf(f, "[%f, \"", ts.tv_sec+ts.tv_usec*0.000001);
     }
-- 
2.43.0


From dae0a84a9c9cb88b3ba5aed845d4c4e4341e4773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:47 +0000
Subject: [PATCH 25/59] fix: an empty recording made an asciicast without a
 header

---
 libtty/asciicast.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 37d83a6..47b18f7 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -559,6 +559,8 @@ void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char
 void record_asciicast_finish(FILE *f, void* state)
 {
     struct ac_state *as = state;
+    if (!as->head_done)
+        record_asciicast(f, state, &as->ts, "", 0);
     if (as->version == 1)
         fprintf(f, "\n]}\n");
     free(state);
-- 
2.43.0


From 88b6ce43689e62bc82866dbc936534a899deb6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:52 +0000
Subject: [PATCH 26/59] fix: asciicast recorder leaked frames that are only a
 part of a character

---
 libtty/asciicast.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 47b18f7..754adbf 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -519,7 +519,10 @@ void record_asciicast(FILE *f, void* state, const struct timeval *tm, const char
     as->putf[skip]=0;
 
     if (!len)
+    {
+        free(buf2);
         return;
+    }
 
     if (as->version == 1)
     {
-- 
2.43.0


From d9a8c539c0fb8b68dac9e5fbe14be7d171681873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:57 +0000
Subject: [PATCH 27/59] fix: asciicasts without a version were played

---
 libtty/asciicast.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 754adbf..2ee639f 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -325,7 +325,7 @@ skip_field:
                 ungetc(c, f);
                 goto expect_field;
             }
-            if (c == '[' && bracket_level == -1)
+            if (c == '[' && bracket_level == -1 && version == 2)
             {
                 ungetc(c, f);
                 goto body;
-- 
2.43.0


From 4d6e3cd315ce51372e7e58cdd642a58d6bb47a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:25 +0000
Subject: [PATCH 28/59] fix: asciicast headers with empty or nested objects, or
 without events, were refused

---
 libtty/asciicast.c | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 2ee639f..9fe32a2 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -314,30 +314,21 @@ skip_field:
             else
                 goto skip_field;
 
+        end_field:
             EAT();
-            if (c == '}')
+            if (c == '}' && bracket_level)
             {
                 bracket_level--;
-                EAT();
-            }
-            if (c == '}')
-            {
-                ungetc(c, f);
-                goto expect_field;
+                goto end_field;
             }
-            if (c == '[' && bracket_level == -1 && version == 2)
-            {
-                ungetc(c, f);
+            if (c == '}' && version == 2)
                 goto body;
-            }
             if (c != ',')
                 FAIL("Not an asciicast: junk after a JSON field.\n");
             break;
         case '}':
-            if (version == 2 && !bracket_level)
-                goto body;
-            bracket_level--;
-            break;
+            ungetc(c, f);
+            goto end_field;
         default:
             FAIL("Not an asciicast: bad header.\n");
         }
-- 
2.43.0


From f2c9b35156c31b843c4324ea55f95d1aa2a15742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:30 +0000
Subject: [PATCH 29/59] fix: asciicast events other than output were shown as
 output

---
 libtty/asciicast.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 9fe32a2..70609be 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -339,6 +339,7 @@ body:
     synch_init_wait(&tv, arg);
     synch_print(buf, sprintf(buf, "\e%%G\e[8;%d;%dt", sy, sx), arg);
     uint64_t old_delay = 0;
+    bool output = true;
 
     while (1)
     {
@@ -377,12 +378,15 @@ body:
             EAT();
             if (c != ',')
                 FAIL("Malformed asciicast: no comma after event type.\n");
+            output = !strcmp(buf, "o");
         }
 
         EAT();
         if (c !='"')
             FAIL("Malformed asciicast: expected even-data string.\n");
-        synch_print(buf, eat_string(f, buf) - buf, arg);
+        int len = eat_string(f, buf) - buf;
+        if (output)
+            synch_print(buf, len, arg);
 
         EAT();
         if (c !=']')
-- 
2.43.0


From decb59ac923181dc4a7b574034d0f5108409ad16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:48 +0000
Subject: [PATCH 30/59] fix: the live recorder's time addition could give
 1000000 microseconds

---
 libtty/formats.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/formats.c b/libtty/formats.c
index 819eee0..a271fef 100644
--- a/libtty/formats.c
+++ b/libtty/formats.c
@@ -94,7 +94,7 @@ Will be called when the recording ends.
 # define little_endian(x) ((uint32_t)(x))
 #endif
 
-#define tadd(t, d)      {if (((t).tv_usec+=(d).tv_usec)>1000000)        \
+#define tadd(t, d)      {if (((t).tv_usec+=(d).tv_usec)>=1000000)       \
                             (t).tv_usec-=1000000, (t).tv_sec++;         \
                          (t).tv_sec+=(d).tv_sec;                        \
                         }
-- 
2.43.0


From 7ff6ae8e4f9a2ac5c890f67484b93c32b0034ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:53 +0000
Subject: [PATCH 31/59] fix: inputs shorter than 12 bytes were not shown

---
 libtty/formats.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libtty/formats.c b/libtty/formats.c
index a271fef..633443d 100644
--- a/libtty/formats.c
+++ b/libtty/formats.c
@@ -458,9 +458,20 @@ static void play_auto(FILE *f,
     {
         // must use unbuffered I/O here, to not spoil it for play_live()
         if ((len=read(fileno(f), ((char*)&tth)+got, 12-got))<=0)
-            return;
+            break;
         got+=len;
     } while (got<12);
+    if (got<12)
+    {
+        // too short for either, show as is
+        if (got)
+        {
+            gettimeofday(&tv, 0);
+            synch_init_wait(&tv, arg);
+            synch_print((char*)&tth, got, arg);
+        }
+        return;
+    }
     if (little_endian(tth.usec)<1000000 &&
         little_endian(tth.len)>0 && little_endian(tth.len)<65536)
     {
-- 
2.43.0


From 3c0792570828c2f53ca217e0c11bcd01a4b004ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:21 +0000
Subject: [PATCH 32/59] fix: asciicast events that go back in time gave delays
 with negative microseconds

---
 libtty/asciicast.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libtty/asciicast.c b/libtty/asciicast.c
index 70609be..7473a9e 100644
--- a/libtty/asciicast.c
+++ b/libtty/asciicast.c
@@ -363,6 +363,11 @@ body:
         }
         tv.tv_sec =  delay/1000000;
         tv.tv_usec = delay%1000000;
+        if (tv.tv_usec < 0)
+        {
+            tv.tv_usec += 1000000;
+            tv.tv_sec--;
+        }
         synch_wait(&tv, arg);
 
         EAT();
-- 
2.43.0


From 53c2010e543aa840a8d3953264e730a60e06ff1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:34 +0000
Subject: [PATCH 33/59] fix: only the first stream of a .bz2 file was read, and
 the end of one cut off was lost

---
 libstream/compress.c | 65 +++++++++++++++++++++++++++-----------------
 1 file changed, 40 insertions(+), 25 deletions(-)

diff --git a/libstream/compress.c b/libstream/compress.c
index e9e884e..50bde4e 100644
--- a/libstream/compress.c
+++ b/libstream/compress.c
@@ -49,41 +49,56 @@ VISIBILITY_DISABLE
 #if (defined HAVE_LIBBZ2) || (defined SHIPPED_LIBBZ2)
 static void read_bz2(int f, int fd, const char *arg)
 {
-    BZFILE* b;
-    int     nBuf;
-    char    buf[BUFFER_SIZE];
-    int     bzerror;
-
-    b = BZ2_bzReadOpen(&bzerror, fdopen(f,"rb"), 0, 0, NULL, 0);
-    if (bzerror != BZ_OK)
+    char    inbuf[BUFFER_SIZE], outbuf[BUFFER_SIZE];
+    bz_stream bz;
+    int     ret = BZ_OK;
+    int     active = 0, first = 1;
+    ssize_t len;
+
+    memset(&bz, 0, sizeof(bz));
+    bz.avail_out = 1;
+    while (1)
     {
-        BZ2_bzReadClose(&bzerror, b);
-        // error
-        ERRORMSG(_("Invalid/corrupt .bz2 file.\n"));
-        close(fd);
-        return;
-    }
+        // if the output is full, there may be more without any new input
+        if (!bz.avail_in && bz.avail_out)
+        {
+            if ((len = read(f, inbuf, BUFFER_SIZE)) <= 0)
+                break;
+            bz.next_in  = inbuf;
+            bz.avail_in = len;
+        }
+        if (!active)    // a file may have several streams
+        {
+            if ((ret = BZ2_bzDecompressInit(&bz, 0, 0)) != BZ_OK)
+                break;
+            active = 1;
+        }
 
-    bzerror = BZ_OK;
-    while (bzerror == BZ_OK)
-    {
-        nBuf = BZ2_bzRead(&bzerror, b, buf, BUFFER_SIZE);
-        if (write(fd, buf, nBuf)!=nBuf)
+        bz.next_out  = outbuf;
+        bz.avail_out = BUFFER_SIZE;
+        ret = BZ2_bzDecompress(&bz);
+        if (write(fd, outbuf, bz.next_out - outbuf) != bz.next_out - outbuf)
+            goto bz2_read_end;
+        if (ret == BZ_STREAM_END)
         {
-            BZ2_bzReadClose(&bzerror, b);
-            close(fd);
-            return;
+            BZ2_bzDecompressEnd(&bz);
+            active = first = 0;
+            bz.avail_out = 1;
         }
+        else if (ret != BZ_OK)
+            break;
     }
-    if (bzerror != BZ_STREAM_END)
+    // ignore trailing garbage
+    if (ret != BZ_STREAM_END && !(ret == BZ_DATA_ERROR_MAGIC && !first))
     {
-        BZ2_bzReadClose(&bzerror, b);
         // error
         ERRORMSG("\033[0m");
         ERRORMSG(_("bzip2: Error during decompression.\n"));
     }
-    else
-        BZ2_bzReadClose(&bzerror, b);
+bz2_read_end:
+    if (active)
+        BZ2_bzDecompressEnd(&bz);
+    close(f);
     close(fd);
 }
 
-- 
2.43.0


From 2f82f30e0430020ca5b424750a5ab5681c129e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:39 +0000
Subject: [PATCH 34/59] fix: .bz2 files being written were never closed

---
 libstream/compress.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libstream/compress.c b/libstream/compress.c
index 50bde4e..cfe6e8b 100644
--- a/libstream/compress.c
+++ b/libstream/compress.c
@@ -105,16 +105,18 @@ bz2_read_end:
 static void write_bz2(int f, int fd, const char *arg)
 {
     BZFILE* b;
+    FILE*   file;
     int     nBuf;
     char    buf[BUFFER_SIZE];
     int     bzerror;
 
-    b = BZ2_bzWriteOpen(&bzerror, fdopen(f,"wb"), 9, 0, 0);
+    b = BZ2_bzWriteOpen(&bzerror, file = fdopen(f,"wb"), 9, 0, 0);
     if (bzerror != BZ_OK)
     {
         BZ2_bzWriteClose(&bzerror, b, 0,0,0);
         // error
         // the writer will get smitten with sigpipe
+        fclose(file);
         close(fd);
         return;
     }
@@ -126,11 +128,13 @@ static void write_bz2(int f, int fd, const char *arg)
         if (bzerror!=BZ_OK)
         {
             BZ2_bzWriteClose(&bzerror, b, 0,0,0);
+            fclose(file);
             close(fd);
             return;
         }
     }
     BZ2_bzWriteClose(&bzerror, b, 0,0,0);
+    fclose(file);
     close(fd);
 }
 #endif
-- 
2.43.0


From d1213abdc24d1f504b2ce9b13020f2b09ffe1fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:41 +0000
Subject: [PATCH 35/59] fix: the end of damaged .xz files was lost, read errors
 overran the buffer

---
 libstream/compress.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/libstream/compress.c b/libstream/compress.c
index cfe6e8b..47fa41a 100644
--- a/libstream/compress.c
+++ b/libstream/compress.c
@@ -210,20 +210,27 @@ static void read_xz(int f, int fd, const char *arg)
 
     xz.avail_in  = 0;
 
-    while (xz.avail_in
-           || (xz.avail_in = read(f, (uint8_t*)(xz.next_in = inbuf), BUFFER_SIZE)) > 0)
+    lzma_ret ret;
+    ssize_t len;
+    while (xz.avail_in || (len = read(f, inbuf, BUFFER_SIZE)) > 0)
     {
+        if (!xz.avail_in)
+        {
+            xz.next_in  = inbuf;
+            xz.avail_in = len;
+        }
         xz.next_out  = outbuf;
         xz.avail_out = sizeof(outbuf);
-        if (lzma_code(&xz, LZMA_RUN) != LZMA_OK)
-            goto xz_read_lzma_end;
+        ret = lzma_code(&xz, LZMA_RUN);
 
+        // what precedes an error is good
         if (write(fd, outbuf, xz.next_out - outbuf) != xz.next_out - outbuf)
             goto xz_read_lzma_end;
+        if (ret != LZMA_OK)
+            goto xz_read_lzma_end;
     }
 
     // Flush the stream
-    lzma_ret ret;
     do
     {
         xz.next_out  = outbuf;
-- 
2.43.0


From 27238084fe2055457740213070aa27cd0bca9afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:41 +0000
Subject: [PATCH 36/59] fix: a read error in a .zst file made garbage be
 decompressed

---
 libstream/compress.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libstream/compress.c b/libstream/compress.c
index 47fa41a..33257db 100644
--- a/libstream/compress.c
+++ b/libstream/compress.c
@@ -313,7 +313,7 @@ static void read_zstd(int f, int fd, const char *arg)
     if (ZSTD_isError(ZSTD_initDStream(stream)))
         goto zstd_r_error;
 
-    size_t s;
+    ssize_t s;
     while ((s = read(f, (void*)zin.src, inbufsz)) > 0)
     {
         zin.size = s;
-- 
2.43.0


From 20d0d663ab966c00728a526a2c68869ade329e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:09 +0000
Subject: [PATCH 37/59] fix: termplay didn't put its clock back when input came
 late

Unless the delay was a whole number of seconds, a negative time was given
to select() instead.
---
 play/player.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/play/player.c b/play/player.c
index 143c6fc..372a8d3 100644
--- a/play/player.c
+++ b/play/player.c
@@ -40,7 +40,7 @@ static int player(void *arg)
             tadd(tt, t0);
             gettimeofday(&wall, 0);
             tsub(tt, wall);
-            if (tt.tv_sec>0 || tt.tv_usec>0)
+            if (tt.tv_sec>=0)
                 select(0, 0, 0, 0, &tt);
             else if (tt.tv_sec<-1) // if not a minimal skip, slow down the clock
                 tsub(t0, tt);      // (tt is negative)
-- 
2.43.0


From 992dc73a7aee639dde4ff2079694984de984e123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:14 +0000
Subject: [PATCH 38/59] fix: rewinding termplay went back in time only, not to
 the first frame

---
 play/player.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/play/player.c b/play/player.c
index 372a8d3..1fe974a 100644
--- a/play/player.c
+++ b/play/player.c
@@ -149,6 +149,8 @@ static void replay_rewind(int dummy)
 {
     replay_stop();
     tc.tv_sec=tc.tv_usec=0;
+    fr=ttyrec_seek(tr, &tc, &term);
+    vtvt_attach(term, stdout, 1);
 }
 
 static void adv_frame(int dummy)
-- 
2.43.0


From ef147a95b6becb2ae611d4d43c6ae8143a2254d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:19 +0000
Subject: [PATCH 39/59] fix: seeking a recording being loaded could give a
 terminal of 80x25

A frame that has just been added doesn't have a snapshot yet.
---
 libtty/timeline.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/libtty/timeline.c b/libtty/timeline.c
index 6d28713..a6e5061 100644
--- a/libtty/timeline.c
+++ b/libtty/timeline.c
@@ -158,13 +158,9 @@ export struct ttyrec_frame* ttyrec_seek(const ttyrec tr, const struct timeval *t
     if (vt)
     {
         tty_free(*vt);
-        if (tfs)
-            *vt=tty_copy(tfs->snapshot);
-        else
-        {
+        if (!tfs)
             tfs=tr->tev_head;
-            *vt=tty_init(80, 25, 1);
-        }
+        *vt=tty_copy(tfs->snapshot);
         if (!*vt)
             return 0;
         while (tfs!=tfv)
-- 
2.43.0


From 44bd2fdd6200222bb22741f5fc450b8e8af83c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:20 +0000
Subject: [PATCH 40/59] fix: a telnet server hanging up after a request could
 kill us with SIGPIPE

---
 libstream/url_telnet.c | 2 +-
 sys/compat.h           | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/libstream/url_telnet.c b/libstream/url_telnet.c
index 0418711..dc43950 100644
--- a/libstream/url_telnet.c
+++ b/libstream/url_telnet.c
@@ -132,7 +132,7 @@ void telnet(int sock, int fd, const char *arg)
                         case DONT:  neg[1]=WONT; break;
                     }
                 }
-                send(sock, (char*)neg, 3, 0);
+                send(sock, (char*)neg, 3, MSG_NOSIGNAL);
                 bp++;
                 state=0;
                 break;
diff --git a/sys/compat.h b/sys/compat.h
index d236ec4..1a395fd 100644
--- a/sys/compat.h
+++ b/sys/compat.h
@@ -8,6 +8,9 @@
 #else
 # define closesocket(x) close(x)
 #endif
+#ifndef MSG_NOSIGNAL
+# define MSG_NOSIGNAL 0
+#endif
 
 #ifndef HAVE_ASPRINTF
 int asprintf(char **sptr, const char *fmt, ...);
-- 
2.43.0


From efcb04b6440f565c4621a452047c60f6dbacf83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:04 +0000
Subject: [PATCH 41/59] fix: termcast streams hung if the server left before
 the key was sent, missed menus with a NUL

---
 libstream/url_termcast.c | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/libstream/url_termcast.c b/libstream/url_termcast.c
index 5be743a..b817166 100644
--- a/libstream/url_termcast.c
+++ b/libstream/url_termcast.c
@@ -4,9 +4,13 @@
 #include <stdlib.h>
 #include <string.h>
 #include <errno.h>
+#ifdef HAVE_SYS_SOCKET_H
+# include <sys/socket.h>
+#endif
 #include "export.h"
 #include "stream.h"
 #include "gettext.h"
+#include "compat.h"
 VISIBILITY_ENABLE
 #include "ttyrec.h"
 VISIBILITY_DISABLE
@@ -116,14 +120,15 @@ static void termcast(int in, int out, const char *arg)
         cp=rp;
         do if ((ses=match(cp, rest)))
             goto found;
-          while ((cp=strchr((rp=cp)+1, '\r')));
+          while ((rp=cp, cp=memchr(rp+1, '\r', buf+inbuf-(rp+1))));
 
         // TODO: press space every some time
     }
 found:
     free(rest);
-    if (write(sock, &ses, 1) != 1)
-        return;
+    // if that fails, the server is gone, but what it said may be yet to be read
+    if (send(sock, &ses, 1, MSG_NOSIGNAL) != 1)
+        {};
     while ((len=read(in, buf, BUFSIZ))>0)
         if (write(out, buf, len)!=len)
             break;;
@@ -131,6 +136,7 @@ found:
     // Alas, there's no real way to detect when the session ends, other
     // than a server disconnect.
 end:
+    close(in);
     close(sock);
     close(out);
 }
@@ -138,7 +144,7 @@ end:
 
 int open_termcast(const char* url, int mode, const char **error)
 {
-    int fd, fdmid;
+    int fd, fdmid, sock;
     const char *rest;
 
     if (mode&SM_WRITE)
@@ -155,10 +161,20 @@ int open_termcast(const char* url, int mode, const char **error)
         *error=_("What termcast session to look for?");
         return -1;
     }
+    // telnet closes its end when the server does, we may want ours yet
+    if ((sock=dup(fd))==-1)
+    {
+        *error=strerror(errno);
+        close(fd);
+        return -1;
+    }
     if ((fdmid=filter(telnet, fd, !!(mode&SM_WRITE), 0, error))==-1)
+    {
+        close(sock);
         return -1;
+    }
     struct filterarg *fa = malloc(sizeof(struct filterarg));
-    fa->sock=fd;
+    fa->sock=sock;
     fa->rest=strdup(rest);
     return filter(termcast, fdmid, !!(mode&SM_WRITE), (const char*)fa, error);
 }
-- 
2.43.0


From 633c58a7517c4a79cdb491f03fc1636ef63a6358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:39 +0000
Subject: [PATCH 42/59] fix: closing a compressed stream before its end could
 kill the program with SIGPIPE

---
 libstream/stream.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libstream/stream.c b/libstream/stream.c
index 4357cc5..1912163 100644
--- a/libstream/stream.c
+++ b/libstream/stream.c
@@ -1,5 +1,6 @@
 #include <string.h>
 #include <unistd.h>
+#include <signal.h>
 #include "config.h"
 #include "compat.h"
 #include "error.h"
@@ -65,6 +66,14 @@ static void filterthr(struct filterdata *args)
     arg=args->arg;
     free(args);
 
+#ifndef IS_WIN32
+    // if the other side is gone, we want to be told, not to be killed
+    sigset_t ss;
+    sigemptyset(&ss);
+    sigaddset(&ss, SIGPIPE);
+    pthread_sigmask(SIG_BLOCK, &ss, 0);
+#endif
+
     func(fdin, fdout, arg);
     mutex_lock(nsm);
     if (!--nstreams)
-- 
2.43.0


From 9f036fbd3bd362b50bcb513ef07976be07400e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:18 +0000
Subject: [PATCH 43/59] fix: DosRecorder notes were read wrong and beyond the
 screen; NULs shifted the line

---
 libtty/dosrecorder.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/libtty/dosrecorder.c b/libtty/dosrecorder.c
index b5fbf03..83f7874 100644
--- a/libtty/dosrecorder.c
+++ b/libtty/dosrecorder.c
@@ -49,7 +49,7 @@ static inline void wrchar(attrchar *ch, char **b)
 {
     // Unicode is 32-bit, charset_cp437[] only 16-bit as all its entries fit
     // into the range.  Thus, hush the compiler warning.
-    TF8(bp, charset_cp437[(unsigned char)ch->c]);
+    TF8(bp, ch->c? charset_cp437[(unsigned char)ch->c] : ' ');
 }
 #pragma GCC diagnostic pop
 #undef bp
@@ -138,6 +138,7 @@ void play_dosrecorder(FILE *f,
     } fh;
 #pragma pack(pop)
     char buf[BUFFER_SIZE], *bp;
+    unsigned char title[80];
     struct timeval tv;
 
     if (!(g=gzdopen(dup(fileno(f)), "rb")))
@@ -165,21 +166,30 @@ void play_dosrecorder(FILE *f,
         {
             if (chs[i].pos>=25*80 || chs[i].len+chs[i].pos>25*80)
                 goto end;       // corrupted file
-            gzread(g, &scr[0][0]+chs[i].pos, chs[i].len*sizeof(attrchar));
+            if (gzread(g, &scr[0][0]+chs[i].pos, chs[i].len*sizeof(attrchar))
+                    !=(int)(chs[i].len*sizeof(attrchar)))
+                goto end;
         }
         memcpy(&screens[fh.dscr], &scr, sizeof(screen));
 
         if (note)
         {
-            if (gzread(g, &nh, sizeof(nh)!=sizeof(nh)))
+            if (gzread(g, &nh, sizeof(nh))!=sizeof(nh))
                 goto end;
+            if (nh.x+nh.w>80 || nh.y+nh.h>25)
+                goto end;       // corrupted file
             for (i=0; i<nh.h; i++)
-                gzread(g, &scr[nh.y+i][nh.x], nh.w*sizeof(attrchar));
+                if (gzread(g, &scr[nh.y+i][nh.x], nh.w*sizeof(attrchar))
+                        !=(int)(nh.w*sizeof(attrchar)))
+                    goto end;
             if (nh.titlelen>80)
                 goto end;
+            if (gzread(g, title, nh.titlelen)!=nh.titlelen)
+                goto end;
             *bp++='\e', *bp++=']', *bp++='0', *bp++=';';
-            gzread(g, bp, nh.titlelen);
-            bp+=nh.titlelen;
+            for (i=0; i<nh.titlelen; i++)
+                if (title[i])
+                    TF8(bp, charset_cp437[title[i]]);
             *bp++=7;
         }
 
-- 
2.43.0


From 7600e3cd3044cad2f23b414da115670daccd4dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:14 +0000
Subject: [PATCH 44/59] fix: dosrecorder: attribute 255 at the start of a frame
 was not set

---
 libtty/dosrecorder.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libtty/dosrecorder.c b/libtty/dosrecorder.c
index 83f7874..e843dff 100644
--- a/libtty/dosrecorder.c
+++ b/libtty/dosrecorder.c
@@ -75,7 +75,7 @@ static int scrdiff(screen *vt, screen *scr, char *buf)
     char *bp=buf;
     int x,y;
     int cx=-1,cy=-1;
-    int attr=-1;
+    int attr=256; // not any attribute
     int sp;
 
     for (y=0; y<25; y++)
-- 
2.43.0


From f1a7914befb6955341864ae5bc7e404f28a6ae56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 45/59] fix: termrec sent signals to a file descriptor's number
 instead of the command

---
 rec/pty.c     | 4 ++--
 rec/pty.h     | 2 +-
 rec/termrec.c | 6 ++++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/rec/pty.c b/rec/pty.c
index c6507a1..c7593df 100644
--- a/rec/pty.c
+++ b/rec/pty.c
@@ -197,7 +197,7 @@ void pty_makeraw(struct termios *ta)
     ta->c_cc[VTIME]=0;
 }
 
-int run(const char *command, int sx, int sy)
+int run(const char *command, int sx, int sy, pid_t *pid)
 {
     int fd;
 
@@ -208,7 +208,7 @@ int run(const char *command, int sx, int sy)
     ws.ws_xpixel=0;
     ws.ws_ypixel=0;
 
-    switch (forkpty(&fd,0,0,(sx&&sy)?&ws:0))
+    switch (*pid=forkpty(&fd,0,0,(sx&&sy)?&ws:0))
     {
     case -1:
         return -1;
diff --git a/rec/pty.h b/rec/pty.h
index bb64830..fab288c 100644
--- a/rec/pty.h
+++ b/rec/pty.h
@@ -18,5 +18,5 @@
 extern int forkpty(int *amaster,char *dummy,struct termios *termp, struct winsize *wp);
 #endif
 
-extern int run(const char *command, int sx, int sy);
+extern int run(const char *command, int sx, int sy, pid_t *pid);
 extern void pty_makeraw(struct termios *ta);
diff --git a/rec/termrec.c b/rec/termrec.c
index 85b1709..8b8b96c 100644
--- a/rec/termrec.c
+++ b/rec/termrec.c
@@ -31,6 +31,7 @@ static volatile int need_resize;
 static int need_utf;
 static struct termios ta;
 static int ptym;
+static volatile pid_t pid;
 static int sx, sy;
 static int record_f;
 static recorder rec;
@@ -42,7 +43,8 @@ static void sigwinch(int s)
 
 static void sigpass(int s)
 {
-    kill(ptym, s);
+    if (pid>0)
+        kill(pid, s);
 }
 
 static void tty_restore(void);
@@ -152,7 +154,7 @@ int main(int argc, char **argv)
     ptym=-1;
     sx=sy=0;
     tty_get_size();
-    if ((ptym=run(command, sx, sy))==-1)
+    if ((ptym=run(command, sx, sy, (pid_t*)&pid))==-1)
     {
         fprintf(stderr, "Couldn't allocate pty.\n");
         return 1;
-- 
2.43.0


From cb61fbb8220bdcf17a516b3435757074db17748f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:12 +0000
Subject: [PATCH 46/59] fix: termrec ended when a write was cut short, or the
 command was already gone

---
 rec/termrec.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/rec/termrec.c b/rec/termrec.c
index 8b8b96c..64dcaff 100644
--- a/rec/termrec.c
+++ b/rec/termrec.c
@@ -129,6 +129,22 @@ static void tty_restore(void)
     tcsetattr(0, TCSADRAIN, &ta);
 }
 
+// a signal may cut a write short
+static int write_all(int fd, const char *buf, int len)
+{
+    while (len>0)
+    {
+        int r=write(fd, buf, len);
+        if (r==-1 && errno==EINTR)
+            continue;
+        if (r<=0)
+            return 0;
+        buf+=r;
+        len-=r;
+    }
+    return 1;
+}
+
 #define BS 65536
 
 int main(int argc, char **argv)
@@ -199,8 +215,8 @@ int main(int argc, char **argv)
             r=read(0, buf, BS);
             if (r<=0)
                 break;
-            if (write(ptym, buf, r) != r)
-                break;
+            // if the command is gone, it may have left something to read
+            write_all(ptym, buf, r);
         }
         if (FD_ISSET(ptym, &rfds))
         {
@@ -209,7 +225,7 @@ int main(int argc, char **argv)
                 break;
             gettimeofday(&tv, 0);
             ttyrec_w_write(rec, &tv, buf, r);
-            if (write(1, buf, r) != r)
+            if (!write_all(1, buf, r))
                 break;
         }
     }
-- 
2.43.0


From bfc9ec4b1d1c124c70f17b201142ddc0aaed1080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:16 +0000
Subject: [PATCH 47/59] fix: termrec died on a resize if its output is not a
 terminal

---
 rec/termrec.c | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/rec/termrec.c b/rec/termrec.c
index 64dcaff..b41885e 100644
--- a/rec/termrec.c
+++ b/rec/termrec.c
@@ -192,6 +192,12 @@ int main(int argc, char **argv)
         FD_SET(ptym, &rfds);
         r=select(ptym+1, &rfds, 0, 0, 0);
 
+        if (r==-1 && errno!=EINTR)
+        {
+            tty_restore();
+            die("select()");
+        }
+
         if (need_resize)
         {
             need_resize=0;
@@ -199,16 +205,8 @@ int main(int argc, char **argv)
             record_size();
         }
 
-        switch (r)
-        {
-        case 0:
+        if (r<=0)
             continue;
-        case -1:
-            if (errno==EINTR)
-                continue;
-            tty_restore();
-            die("select()");
-        }
 
         if (FD_ISSET(0, &rfds))
         {
-- 
2.43.0


From 1e577739af89fcd61c42d37c2f7f490bd25852a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 48/59] fix: termrec missed changes of size while it was
 starting

---
 rec/termrec.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rec/termrec.c b/rec/termrec.c
index b41885e..bcba5d3 100644
--- a/rec/termrec.c
+++ b/rec/termrec.c
@@ -55,7 +55,7 @@ static void sigpipe(int s)
     exit(0);
 }
 
-static void setsignals(void)
+static void set_sigwinch(void)
 {
     struct sigaction act;
 
@@ -64,6 +64,14 @@ static void setsignals(void)
     act.sa_handler=sigwinch;
     if (sigaction(SIGWINCH,&act,0))
         die("sigaction SIGWINCH");
+}
+
+static void setsignals(void)
+{
+    struct sigaction act;
+
+    sigemptyset(&act.sa_mask);
+    act.sa_flags=SA_RESTART;
     act.sa_handler=sigpass;
     if (sigaction(SIGINT,&act,0))
         die("sigaction SIGINT");
@@ -169,6 +177,7 @@ int main(int argc, char **argv)
 
     ptym=-1;
     sx=sy=0;
+    set_sigwinch();     // before we look at the size, not to miss a change
     tty_get_size();
     if ((ptym=run(command, sx, sy, (pid_t*)&pid))==-1)
     {
-- 
2.43.0


From 4046961390d543c57aef299bf1ac8ac0380ef360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 49/59] fix: termrec hung on a broken pipe if the recording is
 compressed

---
 rec/termrec.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rec/termrec.c b/rec/termrec.c
index bcba5d3..4de93e6 100644
--- a/rec/termrec.c
+++ b/rec/termrec.c
@@ -27,7 +27,7 @@
 #include "common.h"
 #include "rec_args.h"
 
-static volatile int need_resize;
+static volatile int need_resize, broken_pipe;
 static int need_utf;
 static struct termios ta;
 static int ptym;
@@ -47,12 +47,9 @@ static void sigpass(int s)
         kill(pid, s);
 }
 
-static void tty_restore(void);
 static void sigpipe(int s)
 {
-    tty_restore();
-    fprintf(stderr, "Broken pipe.  Disk full?\n");
-    exit(0);
+    broken_pipe=1;
 }
 
 static void set_sigwinch(void)
@@ -232,6 +229,8 @@ int main(int argc, char **argv)
                 break;
             gettimeofday(&tv, 0);
             ttyrec_w_write(rec, &tv, buf, r);
+            if (broken_pipe)
+                break;
             if (!write_all(1, buf, r))
                 break;
         }
@@ -240,6 +239,8 @@ int main(int argc, char **argv)
     close(ptym);
     int err=!ttyrec_w_close(rec);
     tty_restore();
+    if (broken_pipe)
+        fprintf(stderr, "Broken pipe.  Disk full?\n");
     wait(0);
     return err;
 }
-- 
2.43.0


From 7758889827e411e7a183f061b4a82fa974b33cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:33 +0000
Subject: [PATCH 50/59] fix: termtime ignored errors when writing its output

---
 time/termtime.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/time/termtime.c b/time/termtime.c
index c6a3ced..666da20 100644
--- a/time/termtime.c
+++ b/time/termtime.c
@@ -30,5 +30,5 @@ int main(int argc, char **argv)
         else
             fprintf(stderr, "%s: %s\n", argv[i], strerror(errno));
     }
-    return !any;
+    return fclose(stdout) || !any;
 }
-- 
2.43.0


From 962d2db0705ae4924c7d86c03554bca17233770e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:56 +0000
Subject: [PATCH 51/59] fix: vt-on-vt drew wrongly on displays of another size

---
 libtty/vtredir.c | 71 +++++++++++++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 28 deletions(-)

diff --git a/libtty/vtredir.c b/libtty/vtredir.c
index f4b2579..789b766 100644
--- a/libtty/vtredir.c
+++ b/libtty/vtredir.c
@@ -19,8 +19,9 @@ struct vtvt_data
 };
 
 #define DATA ((struct vtvt_data*)(vt->l_data))
-#define SX      DATA->sx
-#define SY      DATA->sy
+// the part of the display we use
+#define SX      (DATA->sx<vt->sx? DATA->sx : vt->sx)
+#define SY      (DATA->sy<vt->sy? DATA->sy : vt->sy)
 #define CX      DATA->cx
 #define CY      DATA->cy
 
@@ -74,6 +75,8 @@ static void vtvt_cursor(tty vt, int x, int y)
         return;
     if (x>=SX) // there's no way to go past the last column
         x=SX-1;
+    if (y>=SY)
+        y=SY-1;
     fprintf(DATA->f, "\e[%d;%df", y+1, x+1);
     CX=x;
     CY=y;
@@ -97,8 +100,10 @@ static void build_vt100graph(void)
 
 static void vtvt_char(tty vt, int x, int y, ucs ch, uint64_t attr, int width)
 {
-    if (x>=SX || y>SY)
+    if (x>=SX || y>=SY)
         return;
+    if (x+width>SX) // only a half of it fits
+        ch=' ', width=1;
     if (x!=CX || y!=CY)
         vtvt_cursor(vt, x, y);
     setattr(vt, attr);
@@ -131,6 +136,8 @@ static void put_comb(tty vt, ucs ch)
 // draw a cell together with all its combining marks
 static void vtvt_cell(tty vt, int x, int y)
 {
+    if (x>=SX || y>=SY)
+        return;
     attrchar *ac=&vt->scr[y*vt->sx+x];
     vtvt_char(vt, x, y, ac->ch, ac->attr, mk_wcwidth(ac->ch));
     for (uint32_t i=ac->comb; i; i=vt->combs[i].next)
@@ -139,7 +146,7 @@ static void vtvt_cell(tty vt, int x, int y)
 
 static void vtvt_comb(tty vt, int x, int y, ucs ch, uint64_t attr)
 {
-    if (x>=SX || y>SY)
+    if (x>=SX || y>=SY)
         return;
     int after=x+((attr&VT100_ATTR_CJK)? 2 : 1);
     if (after!=CX || y!=CY) // cursor should be _after_ the glyph
@@ -155,21 +162,17 @@ static void vtvt_comb(tty vt, int x, int y, ucs ch, uint64_t attr)
     put_comb(vt, ch);
 }
 
-export void vtvt_dump(tty vt)
+static void vtvt_lines(tty vt, int y, int y2)
 {
-    int x,y;
-    attrchar *ch;
-
-    ch=vt->scr;
-    for (y=0; y<vt->sy; y++)
-    {
-        for (x=0; x<vt->sx; x++)
-        {
-            if (ch->ch != VT100_CJK_RIGHT)
+    for (; y<y2 && y<SY; y++)
+        for (int x=0; x<SX; x++)
+            if (vt->scr[y*vt->sx+x].ch != VT100_CJK_RIGHT)
                 vtvt_cell(vt, x, y);
-            ch++;
-        }
-    }
+}
+
+export void vtvt_dump(tty vt)
+{
+    vtvt_lines(vt, 0, vt->sy);
     vtvt_cursor(vt, vt->cx, vt->cy);
 }
 
@@ -177,14 +180,14 @@ static void vtvt_clear(tty vt, int x, int y, int len)
 {
     int c;
 
-    if (x>=SX)
+    if (x>=vt->sx)
         x=0, y++;
     setattr(vt, vt->attr);
-    if (x==0 && y==0 && len==SX*SY)
+    if (SX==vt->sx && x==0 && y==0 && len==SX*SY)
         fprintf(DATA->f, "\e[2J");
-    else if (x==0 && y==0 && len==CY*SX+CX)
+    else if (SX==vt->sx && x==0 && y==0 && len==CY*SX+CX)
         fprintf(DATA->f, "\e[1J");
-    else if (x==CX && y==CY && len==SX*SY-CY*SX-CX)
+    else if (SX==vt->sx && x==CX && y==CY && len==SX*SY-CY*SX-CX)
         fprintf(DATA->f, "\e[0J");
     else if (x==0 && y==CY && len==SX)
         fprintf(DATA->f, "\e[2K");
@@ -193,11 +196,14 @@ static void vtvt_clear(tty vt, int x, int y, int len)
     else if (x==CX && y==CY && len==SX-CX)
         fprintf(DATA->f, "\e[0K");
     else
-        while (len)
+        while (len && y<SY)
         {
-            vtvt_cursor(vt, x, y);
-            c=(len>SX-x)? SX-x : len;
-            fprintf(DATA->f, "\e[%dX", c);
+            c=(len>vt->sx-x)? vt->sx-x : len;
+            if (x<SX)
+            {
+                vtvt_cursor(vt, x, y);
+                fprintf(DATA->f, "\e[%dX", (c>SX-x)? SX-x : c);
+            }
             len-=c;
             x=0;
             y++;
@@ -207,6 +213,11 @@ static void vtvt_clear(tty vt, int x, int y, int len)
 
 static void vtvt_scroll(tty vt, int nl)
 {
+    if (vt->s2>SY) // lines come from (or go) where there's no display
+    {
+        vtvt_lines(vt, vt->s1, SY);
+        return;
+    }
     setattr(vt, vt->attr);
     if (vt->s2-vt->s1==1) // terminals refuse a region of a single line
     {
@@ -239,6 +250,9 @@ static void vtvt_osc(tty vt, int cmd, const char *str)
 static void vtvt_resized(tty vt, int sx, int sy)
 {
     fprintf(DATA->f, "\e[8;%u;%ut", sy, sx);
+    // the display may have obeyed or not
+    CX=CY=-1;
+    vtvt_dump(vt);
 }
 
 static void vtvt_flush(tty vt)
@@ -259,7 +273,8 @@ static void vtvt_free(tty vt)
 
 export void vtvt_resize(tty vt, int sx, int sy)
 {
-    SX=sx; SY=sy;
+    DATA->sx=sx; DATA->sy=sy;
+    CX=CY=-1;
 }
 
 export void vtvt_attach(tty vt, FILE *f, int dump)
@@ -269,8 +284,8 @@ export void vtvt_attach(tty vt, FILE *f, int dump)
     DATA->attr=-1;
     DATA->f=f;
 
-    SX=80; SY=25;
-    get_tty_size(fileno(f), &SX, &SY);
+    DATA->sx=80; DATA->sy=25;
+    get_tty_size(fileno(f), &DATA->sx, &DATA->sy);
 
     vt->l_char=vtvt_char;
     vt->l_comb=vtvt_comb;
-- 
2.43.0


From d84595f77fc1a00d1aaf828a15c1968ea9f3f738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:46 +0000
Subject: [PATCH 52/59] fix: tty_color_convert turned brown into red

---
 libtty/colors.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libtty/colors.c b/libtty/colors.c
index 9d0675b..1cca56b 100644
--- a/libtty/colors.c
+++ b/libtty/colors.c
@@ -78,6 +78,9 @@ static uint32_t rgb_to_16(uint32_t c)
 
     if (hue == 7 && max <= 0x70)
         return 8;
+    // what would be dark yellow is brown, with half of the green
+    if (hue == 1 && max <= 0xc0 && G(c) > B(c) + 0x2a)
+        return 3;
 
     return (max > 0xc0) ? hue|8 : hue;
 }
-- 
2.43.0


From ace22428e7dc26d21e4d2269855ef144926e5ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:44 +0000
Subject: [PATCH 53/59] fix: a bracketed IPv6 address without a port lost its
 last part to be one

---
 libstream/url_tcp.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/libstream/url_tcp.c b/libstream/url_tcp.c
index 3f024e6..8111bc0 100644
--- a/libstream/url_tcp.c
+++ b/libstream/url_tcp.c
@@ -41,18 +41,14 @@ static const char *resolve_host(char *host, int port, struct addrinfo **ai)
         if (!cp)
             return _("Unmatched [ in the host part.");
         *cp++=0;
-        if (*cp)
-        {
-            if (*cp==':')
-                goto getrport;
-            else
-                return _("Cruft after the [host name]."); // IPv6-style host name
-        }
+        if (*cp && *cp!=':')
+            return _("Cruft after the [host name]."); // IPv6-style host name
     }
+    else
+        cp=strrchr(host, ':');
     // extract :port
-    if ((cp=strrchr(host, ':')))
+    if (cp && *cp)
     {
-    getrport:
         *cp=0;
         cp++;
         i=strtoul(cp, &cp, 10);
-- 
2.43.0


From 706250eadd40b615d8718100039bfaade4a966ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:44 +0000
Subject: [PATCH 54/59] fix: negative port numbers overflowed a buffer

---
 libstream/url_tcp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libstream/url_tcp.c b/libstream/url_tcp.c
index 8111bc0..e8f62f6 100644
--- a/libstream/url_tcp.c
+++ b/libstream/url_tcp.c
@@ -51,8 +51,8 @@ static const char *resolve_host(char *host, int port, struct addrinfo **ai)
     {
         *cp=0;
         cp++;
-        i=strtoul(cp, &cp, 10);
-        if (*cp || !i || i>65535)
+        i=strtol(cp, &cp, 10);
+        if (*cp || i<=0 || i>65535)
             return _("Invalid port number");
         port=i;
     }
-- 
2.43.0


From f9c0eb4b865d8a86bebedfcea5fa43019542975a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:55 +0000
Subject: [PATCH 55/59] fix: sockets of addresses that didn't answer were left
 open

---
 libstream/url_tcp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libstream/url_tcp.c b/libstream/url_tcp.c
index e8f62f6..4c8b3b3 100644
--- a/libstream/url_tcp.c
+++ b/libstream/url_tcp.c
@@ -92,7 +92,10 @@ static int connect_out(struct addrinfo *ai)
             if (errno == EINTR)
                 goto intr;
             else
+            {
+                closesocket(sock);
                 continue;
+            }
         return sock;
     }
     return -1;  // errno will be valid here
-- 
2.43.0


From 5da1c6199c27f03230546077f5849b72c76f94d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:55 +0000
Subject: [PATCH 56/59] fix: addresses of over 127 characters were cut, often
 at the port

---
 libstream/url_tcp.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/libstream/url_tcp.c b/libstream/url_tcp.c
index 4c8b3b3..9b29a1e 100644
--- a/libstream/url_tcp.c
+++ b/libstream/url_tcp.c
@@ -129,21 +129,20 @@ static void sock2file(int sock, int file, const char *arg)
 
 int connect_tcp(const char *url, int port, const char **rest, const char **error)
 {
-    char host[128], *cp;
+    char *host;
     struct addrinfo *ai;
     int fd;
 
-    if ((cp=strchr(url, '/')))
+    if (!(host=strdup(url)))
     {
-        snprintf(host, sizeof(host), "%.*s", (int)(cp-url), url);
-        *rest=cp;
-    }
-    else
-    {
-        snprintf(host, sizeof(host), "%s", url);
-        *rest="";
+        *error=strerror(errno);
+        return -1;
     }
-    if ((*error=resolve_host(host, port, &ai)))
+    *rest=url+strcspn(url, "/");
+    host[*rest-url]=0;
+    *error=resolve_host(host, port, &ai);
+    free(host);
+    if (*error)
         return -1;
     if ((fd=connect_out(ai))==-1)
         *error=strerror(errno);
-- 
2.43.0


From 109dd47f2d26c6ee00ee99c5883350c391dc3caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:20 +0000
Subject: [PATCH 57/59] fix: termplay left the terminal raw if a signal ended
 or suspended it, or if it died

---
 play/termplay.c | 86 ++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 78 insertions(+), 8 deletions(-)

diff --git a/play/termplay.c b/play/termplay.c
index a76cdab..21e3e51 100644
--- a/play/termplay.c
+++ b/play/termplay.c
@@ -6,6 +6,8 @@
 #include <getopt.h>
 #include <stdlib.h>
 #include <locale.h>
+#include <signal.h>
+#include <errno.h>
 #if HAVE_TERMIOS_H
 # include <termios.h>
 # include <unistd.h>
@@ -144,11 +146,78 @@ static int loader(void *arg)
 }
 
 
-static struct termios old_tattr;
+static struct termios old_tattr, tattr;
+static volatile sig_atomic_t raw;
+static pthread_t main_thread;
+
+static void set_tattr(const struct termios *t)
+{
+    int err=errno;
+
+    // in the background, the terminal is someone else's
+    if (raw && tcgetpgrp(0)==getpgrp())
+        tcsetattr(0,TCSANOW,t);
+    errno=err;
+}
+
+static void sig_set(int s, void (*handler)(int))
+{
+    struct sigaction act;
+
+    if (!sigaction(s,0,&act) && act.sa_handler==SIG_IGN)
+        return;
+    sigfillset(&act.sa_mask);
+    act.sa_flags=SA_RESTART;
+    act.sa_handler=handler;
+    sigaction(s,&act,0);
+}
+
+// All is done by a single thread, the others may get our signals too.
+static int sig_passed(int s)
+{
+    if (pthread_equal(pthread_self(),main_thread))
+        return 0;
+    pthread_kill(main_thread,s);
+    return 1;
+}
+
+// What ends or stops us must not leave the terminal raw.
+static void sig_leave(int s)
+{
+    sigset_t ss;
+
+    if (sig_passed(s))
+        return;
+    set_tattr(&old_tattr);
+    signal(s,SIG_DFL);
+    raise(s);
+    sigemptyset(&ss);
+    sigaddset(&ss,s);
+    pthread_sigmask(SIG_UNBLOCK,&ss,0);
+    // it was but a stop
+    sig_set(s,sig_leave);
+    set_tattr(&tattr);
+}
+
+static void sig_cont(int s)
+{
+    if (!sig_passed(s))
+        set_tattr(&tattr);
+}
+
+static void kbd_restore(void)
+{
+    if (!raw)
+        return;
+    tattr=old_tattr;            // should we get continued right now
+    tcdrain(0);
+    tcsetattr(0,TCSADRAIN,&old_tattr);
+    raw=0;
+}
 
 static void kbd_raw(void)
 {
-    struct termios tattr;
+    static const int leave[]={SIGHUP, SIGINT, SIGQUIT, SIGPIPE, SIGTERM, SIGTSTP};
 
     if (!isatty(0))
         return;
@@ -168,13 +237,14 @@ static void kbd_raw(void)
 #endif
     tattr.c_cc[VMIN]=1;
     tattr.c_cc[VTIME]=0;
-    tcsetattr(0,TCSANOW,&tattr);
-}
 
-static void kbd_restore(void)
-{
-    tcdrain(0);
-    tcsetattr(0,TCSADRAIN,&old_tattr);
+    main_thread=pthread_self();
+    raw=1;
+    atexit(kbd_restore);        // if we die
+    for (unsigned int i=0; i<sizeof(leave)/sizeof(leave[0]); i++)
+        sig_set(leave[i],sig_leave);
+    sig_set(SIGCONT,sig_cont);
+    tcsetattr(0,TCSANOW,&tattr);
 }
 
 
-- 
2.43.0


From 8ae100103ddab45b8c0044226ea46a6093ce2dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:11 +0000
Subject: [PATCH 58/59] fix: termrec -e ran only the first of several commands

---
 rec/pty.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rec/pty.c b/rec/pty.c
index c7593df..7b9b732 100644
--- a/rec/pty.c
+++ b/rec/pty.c
@@ -217,7 +217,9 @@ int run(const char *command, int sx, int sy, pid_t *pid)
             const char *argv[4];
             char *cmd;
 
-            if (asprintf(&cmd, "exec %s", command) == -1)
+            // a simple command gets our signals itself, rather than a shell
+            if (asprintf(&cmd, strpbrk(command, "\n;&|(){}!=")? "%s" : "exec %s",
+                         command) == -1)
                 abort();
             argv[0]="sh";
             argv[1]="-c";
-- 
2.43.0


From 490c75c374971b79dd9fbb831dc8684fed8b6f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:42 +0000
Subject: [PATCH 59/59] fix: a signal could cut a wait of the player short

---
 play/player.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/play/player.c b/play/player.c
index 1fe974a..4c106a9 100644
--- a/play/player.c
+++ b/play/player.c
@@ -4,6 +4,7 @@
 #include <stdio.h>
 #include <time.h>
 #include <string.h>
+#include <errno.h>
 #include "error.h"
 #include "gettext.h"
 #include "sys/threads.h"
@@ -41,7 +42,11 @@ static int player(void *arg)
             gettimeofday(&wall, 0);
             tsub(tt, wall);
             if (tt.tv_sec>=0)
-                select(0, 0, 0, 0, &tt);
+            {
+                // go on if a signal came (where it tells the time left)
+                while (select(0, 0, 0, 0, &tt)==-1 && errno==EINTR)
+                    ;
+            }
             else if (tt.tv_sec<-1) // if not a minimal skip, slow down the clock
                 tsub(t0, tt);      // (tt is negative)
             pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, 0);
-- 
2.43.0

