From 14ded043cbe5d6ec45fbd599cd19e9211dc7dce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:44 +0000
Subject: [PATCH 001/152] fix: score an optionally deletable fragment with a
 leading hyphen as a fragment

With -D -F, decode_fragment() looked inside the parentheses of an optionally
deletable word for a trailing hyphen only, so (-b) was never treated as a
fragment.
---
 src/sclite/align.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index 08c5de3..149b2ba 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -773,7 +773,8 @@ void decode_fragment(ARC *arc, void *ptr){
     if (((*(tw->value + len - 1) == WORD_FRAG_CHAR) || 
 	 (*(tw->value          ) == WORD_FRAG_CHAR))    ||
 	(tw->opt_del && 
-	 (*(tw->value + len - 2) == WORD_FRAG_CHAR)))
+	 ((*(tw->value + len - 2) == WORD_FRAG_CHAR) ||
+	  (*(tw->value + 1) == WORD_FRAG_CHAR))))
       tw->frag_corr = TRUE;
 
     return;
-- 
2.43.0


From 4a6f45aeb997c0e9f4355c1ffbecd32f7d279a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:29 +0000
Subject: [PATCH 002/152] fix: do not drop the last utterance of a trn file
 that lacks a final newline

The readers stopped as soon as end-of-file was seen, also when a complete
record had just been read, so the last hypothesis utterance was silently left
out of the score (or the last reference reported missing).
---
 src/sclite/align.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index 149b2ba..93fb08c 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -116,7 +116,9 @@ void load_refs(SCORES *sc, char *hyp_file, char *ref_file, TEXT ***rset, TEXT **
             if (TEXT_ensure_fgets(&in_buf,&in_buf_len,fp) == NULL)
                *in_buf = NULL_TEXT;
 	}
-	if (!feof(fp)){
+	if (! (feof(fp) && (TEXT_is_comment(in_buf) ||
+			   TEXT_is_comment_info(in_buf) ||
+			   TEXT_is_empty(in_buf)))){
 	    if (!case_sense)
 		TEXT_str_case_change_with_mem_expand(&in_buf, &in_buf_len, 1);
 	    remove_id(in_buf,&id_buf,&id_buf_len);
@@ -157,7 +159,9 @@ void load_refs(SCORES *sc, char *hyp_file, char *ref_file, TEXT ***rset, TEXT **
             if (TEXT_ensure_fgets(&in_buf,&in_buf_len,fp) == NULL)
                *in_buf = '\0';
 	}
-        if (feof(fp))
+        if (feof(fp) && (TEXT_is_comment(in_buf) ||
+			   TEXT_is_comment_info(in_buf) ||
+			   TEXT_is_empty(in_buf)))
             break;
 
 	if (!case_sense)
@@ -555,7 +559,9 @@ SCORES *align_trans_mode_dp(char *ref_file, char *hyp_file, char *set_title, int
                                  TEXT_is_empty(hyp_buff)))
             if (TEXT_ensure_fgets(&hyp_buff,&hyp_buff_len,fp_hyp) == NULL)
                *hyp_buff = '\0';
-        if (feof(fp_hyp))
+        if (feof(fp_hyp) && (TEXT_is_comment(hyp_buff) ||
+			   TEXT_is_comment_info(hyp_buff) ||
+			   TEXT_is_empty(hyp_buff)))
             break;
 
 	remove_id(hyp_buff,&hyp_id,&hyp_id_len);
@@ -827,7 +833,9 @@ void create_word_lists(SCORES *sc, TEXT **reftran, TEXT **refid, int refcnt, cha
             if (TEXT_ensure_fgets(&hyp_buff,&hyp_buff_len,fp_hyp) == NULL)
                *hyp_buff = '\0';
 
-        if (feof(fp_hyp))
+        if (feof(fp_hyp) && (TEXT_is_comment(hyp_buff) ||
+			   TEXT_is_comment_info(hyp_buff) ||
+			   TEXT_is_empty(hyp_buff)))
             break;
 
 	(*num_hyp) ++;
@@ -1007,7 +1015,10 @@ SCORES *align_trans_mode_diff(char *ref_file, char *hyp_file, char *set_title, i
             if (TEXT_ensure_fgets(&hyp_buff,&hyp_buff_len,fp_hyp) == NULL)
                *hyp_buff = '\0';
 
-        if (feof(fp_hyp))  break;
+        if (feof(fp_hyp) && (TEXT_is_comment(hyp_buff) ||
+			   TEXT_is_comment_info(hyp_buff) ||
+			   TEXT_is_empty(hyp_buff)))
+            break;
 	if (!case_sense)    TEXT_str_case_change_with_mem_expand(&hyp_buff, &hyp_buff_len, 1);
 	remove_id(hyp_buff,&hyp_id,&hyp_id_len);
 	extract_speaker(hyp_id,spkr_id,idt);
-- 
2.43.0


From a0b85b6f8ff5dc8073e9af38957d4489f7a35ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:29 +0000
Subject: [PATCH 003/152] fix: report a conflicting second reference text that
 is a prefix of the first

load_refs() compared only as many bytes as the second text has, so a
contradictory duplicate reference was accepted when it was a prefix.
---
 src/sclite/align.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index 93fb08c..fb8e222 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -173,7 +173,7 @@ void load_refs(SCORES *sc, char *hyp_file, char *ref_file, TEXT ***rset, TEXT **
 				    bsearch_TEXT_strcmp)) != NULL){
 	    rind = ind - idset;
 	    if (refset[rind] != (TEXT *)0){
-		if (TEXT_strBcmp(in_buf,refset[rind],TEXT_strlen(in_buf))!= 0){
+		if (TEXT_strcmp(in_buf,refset[rind])!= 0){
 		    fprintf(stderr,"Error: double reference text for id '%s'\n",
 			    id_buf);
 		    failure=1;
-- 
2.43.0


From dbe61b8f6e8fe130dd32194716822373975e087e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:17 +0000
Subject: [PATCH 004/152] fix: keep the words that follow an empty alternative
 in a ctm alternation

---
 src/sclite/net_adt.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/sclite/net_adt.c b/src/sclite/net_adt.c
index 9cb76ac..c7ac654 100644
--- a/src/sclite/net_adt.c
+++ b/src/sclite/net_adt.c
@@ -674,7 +674,7 @@ NETWORK *Network_create_from_WTOKE(WTOKE_STR1 *wt,int start,int end, char *name,
     for (i=start; (i<=wt->n)&&(i<=end); i++){
 	if ((!wt->word[i].ignore) && wt->word[i].alternate) {
 	    NETWORK *alt_net, *alt_net_out=NULL_NETWORK;
-	    int first_alt=1, acnt;
+	    int first_alt=1, acnt, more_alts;
 
 	    /* skip the ALT_BEGIN */
 	    for (; (i<=wt->n) && (i<=end) &&
@@ -726,7 +726,6 @@ NETWORK *Network_create_from_WTOKE(WTOKE_STR1 *wt,int start,int end, char *name,
 			fprintf(stderr,"failed in %s\n",proc);
 			return(NULL_NETWORK);
 		    }
-		    i++;
 		}
 		if (first_alt)
 		    alt_net_out = alt_net;
@@ -736,13 +735,12 @@ NETWORK *Network_create_from_WTOKE(WTOKE_STR1 *wt,int start,int end, char *name,
 					  alt_net_out->stop_node,alt_net);
 		}
 	        first_alt = 0;
-		if (TEXT_strcasecmp((TEXT*)"<ALT>",wt->word[i].sp) == 0 &&
-		    TEXT_strcasecmp((TEXT*)"<ALT_END>",wt->word[i+1].sp) == 0)
-		    ;
-		else if (TEXT_strcasecmp((TEXT*)"<ALT_END>",wt->word[i].sp)!=0)
+		/* an <ALT> introduces one more, possibly empty, alternative */
+		more_alts = (i<=wt->n) && (i<=end) &&
+		    (TEXT_strcasecmp((TEXT*)"<ALT>",wt->word[i].sp) == 0);
+		if (more_alts)
 		    i++;
-	    } while ((i<=wt->n) && (i<=end) &&
-		     (TEXT_strcasecmp((TEXT*)"<ALT_END>",wt->word[i].sp)!= 0));
+	    } while (more_alts);
 
 	    if (alt_net_out == (NETWORK *)0){
 		fprintf(stderr,"Error: %s failed to produce a network for "
-- 
2.43.0


From 858a742ef394f1cab9bb8c1ffc228501404e728f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:17 +0000
Subject: [PATCH 005/152] fix: do not print -m progress messages into the
 reports when feedback is off

---
 src/sclite/stm2ctm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/stm2ctm.c b/src/sclite/stm2ctm.c
index 1ca29ef..3a63c45 100644
--- a/src/sclite/stm2ctm.c
+++ b/src/sclite/stm2ctm.c
@@ -127,7 +127,7 @@ static int align_one_channel(SCORES *scor, int chan, WTOKE_STR1 *hyp_segs, STM *
 		printf(") For Channel %d. ", chan+1);
 	    }
 	    if (!stm->seg[rs].flag1){
-	        if (ignored_refseg > 0){
+	        if (feedback >= 1 && ignored_refseg > 0){
 		    printf(" (%d Ignored Segments, %d Ignored Hyp Words.)    ",
 			   ignored_refseg,ignored_hypword);
 		}
-- 
2.43.0


From d7f6d0723e86279bd0afed9812cdad97709d52af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:28 +0000
Subject: [PATCH 006/152] fix: -m ref no longer loses words between the last
 kept and the first skipped segment

---
 src/sclite/stm2ctm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sclite/stm2ctm.c b/src/sclite/stm2ctm.c
index 3a63c45..4a5b137 100644
--- a/src/sclite/stm2ctm.c
+++ b/src/sclite/stm2ctm.c
@@ -13,6 +13,7 @@ static int align_one_channel(SCORES *scor, int chan, WTOKE_STR1 *hyp_segs, STM *
     int ignored_refseg = 0;
     int ignored_hypword = 0;
     int ignore_segment = 0;
+    int last_seg = r_end;   /* the segment that takes all remaining words */
 
 //    if (TEXT_strcmp((TEXT*)hyp_segs->word[h_st].conv,stm->seg[r_st].file)!= 0){
 //	fprintf(stderr,"%s: File identifiers do not match,\nhyp ",proc);
@@ -46,6 +47,7 @@ static int align_one_channel(SCORES *scor, int chan, WTOKE_STR1 *hyp_segs, STM *
 	    if (feedback >= 10){
 		if (!stm->seg[rs].flag1) printf("Segment %d Ignored\n",rs);
 	    }
+	    if (stm->seg[rs].flag1) last_seg = rs;
 	}
     }
     
@@ -152,7 +154,7 @@ static int align_one_channel(SCORES *scor, int chan, WTOKE_STR1 *hyp_segs, STM *
 	}
 
 	segment_hyp_for_utt(hyp_segs, stm, &curhyp, &curhend, h_st, h_end,
-			    rs, r_st, r_end);
+			    rs, r_st, last_seg);
 
 	if ((TEXT_strstr(stm->seg[rs].text,
 			(TEXT *)"IGNORE_TIME_SEGMENT_IN_SCORING") == (TEXT*)0) &&
-- 
2.43.0


From d7a4e48e886fe0b023d5e1b965c3d1853b284eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:55 +0000
Subject: [PATCH 007/152] fix: report a ctm file that ends before the other
 one's last word

---
 src/sclite/ctm2ctm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sclite/ctm2ctm.c b/src/sclite/ctm2ctm.c
index 2fe74b6..c75481c 100644
--- a/src/sclite/ctm2ctm.c
+++ b/src/sclite/ctm2ctm.c
@@ -64,13 +64,13 @@ SCORES *align_ctm_to_ctm(char *hyp_file, char *ref_file, char *set_title, int fe
 	fill_WTOKE_structure(hyp, fp_hyp, hyp_file, &hyp_eof, case_sense);
 	fill_WTOKE_structure(ref, fp_ref, ref_file, &ref_eof, case_sense);
 	
-	if ((hyp->n < hyp->s) && (ref->n > ref->s)) {
+	if ((hyp->n < hyp->s) && (ref->n >= ref->s)) {
 	  fprintf(stderr,"Error: premature EOF in hyp file '%s' at conv"
 		  "ersation '%s' of ref file '%s'\n",hyp_file,
 		  ref->word[ref->s].conv,ref_file);
 	  exit(1);
 	}
-	if ((hyp->n > hyp->s) && (ref->n < ref->s)) {
+	if ((hyp->n >= hyp->s) && (ref->n < ref->s)) {
 	  fprintf(stderr,"Error: premature EOF in ref file '%s' at conv"
 		  "ersation '%s' of hyp file '%s'\n",ref_file,
 		  hyp->word[hyp->s].conv,hyp_file);
-- 
2.43.0


From 2771612256640a78ab43b80567e130a2abd8cf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:01 +0000
Subject: [PATCH 008/152] fix: score every channel of a ctm file against its
 ctm reference, however few words or however many channels

---
 src/sclite/ctm2ctm.c | 103 +++++++++----------------------------------
 1 file changed, 22 insertions(+), 81 deletions(-)

diff --git a/src/sclite/ctm2ctm.c b/src/sclite/ctm2ctm.c
index c75481c..cf1ea0f 100644
--- a/src/sclite/ctm2ctm.c
+++ b/src/sclite/ctm2ctm.c
@@ -14,14 +14,11 @@ SCORES *align_ctm_to_ctm(char *hyp_file, char *ref_file, char *set_title, int fe
     int hyp_chop_end, ref_chop_end;
     int i;
     PATH *path;
-    int ref_end_chan1, hyp_end_chan1, ref_end_chan2, hyp_end_chan2;
     int ref_end, hyp_end, ref_begin, hyp_begin;
-    int ref_opp_end, hyp_opp_end, ref_opp_begin, hyp_opp_begin;
     int dbg = TRUE;
     int chunk;
     char uttid[100];
     int spkr;
-    int number_of_channels;
     SCORES *scor;
     NETWORK *hnet, *rnet;
     int keep_path = 1;
@@ -91,47 +88,6 @@ SCORES *align_ctm_to_ctm(char *hyp_file, char *ref_file, char *set_title, int fe
 	  exit(1);
 	}
 
-	locate_boundary(ref, ref->s, TRUE, TRUE, &ref_end_chan1);
-	locate_boundary(hyp, hyp->s, TRUE, TRUE, &hyp_end_chan1);
-
-	number_of_channels = 1;
-	hyp_end_chan2 = ref_end_chan2 = -1;
-	if (ref_end_chan1+1 < ref->n &&
-	    strcmp(ref->word[ref->s].conv,ref->word[ref_end_chan1+1].conv)==0){
-	    locate_boundary(ref, ref_end_chan1+1, TRUE, TRUE, &ref_end_chan2);
-	    number_of_channels = 2;
-	}
-	if (hyp_end_chan1+1 < hyp->n &&
-	    strcmp(hyp->word[hyp->s].conv,hyp->word[hyp_end_chan1+1].conv)==0){
-	    locate_boundary(hyp, hyp_end_chan1+1, TRUE, TRUE, &hyp_end_chan2);
-	    number_of_channels = 2;
-	}
-
-	if (number_of_channels == 2){
-	  /* either the ref, hyp or both had two channels.  make sure there */
-	  /* are two channels in both */
-	  if (hyp_end_chan2 == -1){
-	    fprintf(stderr,"Error: in ref file '%s' and hyp file '%s'\n   ",
-		    ref_file, hyp_file);
-	    fprintf(stderr,"    Hyp is missing second channel of file '%s'\n",
-		    ref->word[ref->s].conv);
-	    exit(1);
-	  }
-	  if (ref_end_chan2 == -1){
-	    fprintf(stderr,"Error: in ref file '%s' and hyp file '%s'\n   ",
-		    ref_file, hyp_file);
-	    fprintf(stderr,"    ref is missing second channel of file '%s'\n",
-		    hyp->word[hyp->s].conv);
-	    exit(1);
-	  }
-	  
-	  
-	} else {
-	    /* There was no second channel */
-	    ref_end_chan2 = ref_end_chan1;
-	    hyp_end_chan2 = hyp_end_chan1;
-	}
-
 	if (feedback >= 1)
 	    printf("    Performing %s alignments for file '%s'.\n",
 		   (time_align?"Time-mediated":"Word"),
@@ -144,44 +100,29 @@ SCORES *align_ctm_to_ctm(char *hyp_file, char *ref_file, char *set_title, int fe
 	    printf("Located HYP boundary: for %s %s -> %d,%d\n",
 		   hyp->word[hyp->s].conv,
 		   hyp->word[hyp->s].turn,hyp->s,hyp_conv_end);
-
-	    printf("Located REF Channel 1 boundary: for %d - %d\n",
-		   ref->s,ref_end_chan1);
-	    printf("Located HYP Channel 1 boundary: for %d - %d\n",
-		   hyp->s,hyp_end_chan1);	
-	    printf("Located REF Channel 2 boundary: for %d - %d\n",
-		   ref_end_chan1+1,ref_end_chan2);
-	    printf("Located HYP Channel 2 boundary: for %d - %d\n",
-		   hyp_end_chan1+1,hyp_end_chan2);
 	}
 
 
 	/* Start the alignment */
-	/* Side A */
-	for (i=0; i<number_of_channels; i++){
+	/* one channel at a time, pairing the channels in file order */
+	ref_begin = ref->s;
+	hyp_begin = hyp->s;
+	for (i=0; ref_begin <= ref_conv_end || hyp_begin <= hyp_conv_end; i++){
 	    int base_len;
+	    WTOKE1 *chan_word;
+
 	    chunk = 0;	    
-	    if (i==0){
-		ref_end = ref_end_chan1;
-		hyp_end = hyp_end_chan1;
-		ref_begin = ref->s;
-		hyp_begin = hyp->s;
-
-		ref_opp_end = ref_end_chan2;
-		hyp_opp_end = hyp_end_chan2;
-		ref_opp_begin = ref_end_chan1 + 1;
-		hyp_opp_begin = hyp_end_chan1 + 1;
-	    } else {
-		ref_end = ref_end_chan2;
-		hyp_end = hyp_end_chan2;
-		ref_begin = ref_end_chan1 + 1;
-		hyp_begin = hyp_end_chan1 + 1;
-
-		ref_opp_end = ref_end_chan1;
-		hyp_opp_end = hyp_end_chan1;
-		ref_opp_begin = ref->s;
-		hyp_opp_begin = hyp->s;
+	    if (hyp_begin > hyp_conv_end || ref_begin > ref_conv_end){
+	      fprintf(stderr,"Error: in ref file '%s' and hyp file '%s'\n   ",
+		      ref_file, hyp_file);
+	      fprintf(stderr,"    %s is missing channel %d of file '%s'\n",
+		      (hyp_begin > hyp_conv_end) ? "Hyp" : "Ref", i+1,
+		      ref->word[ref->s].conv);
+	      exit(1);
 	    }
+	    locate_boundary(ref, ref_begin, TRUE, TRUE, &ref_end);
+	    locate_boundary(hyp, hyp_begin, TRUE, TRUE, &hyp_end);
+	    chan_word = &(ref->word[ref_begin]);
 	    if (dbg > 5){
 		printf("Starting channel %d\n",i);
 		printf("Ref Range: %d - %d\n",ref_begin,ref_end);
@@ -202,13 +143,13 @@ SCORES *align_ctm_to_ctm(char *hyp_file, char *ref_file, char *set_title, int fe
 		removals = 0;
 
 		/* create the utterance ID */
-		sprintf(uttid,"(%s-%s-%04d)",ref->word[ref_begin].conv,
-			ref->word[ref_begin].turn,chunk);
+		sprintf(uttid,"(%s-%s-%04d)",chan_word->conv,
+			chan_word->turn,chunk);
 
 		spkr = SCORES_get_grp(scor,
 				      rsprintf("%s-%s",
-					       ref->word[ref_begin].conv,
-					       ref->word[ref_begin].turn));
+					       chan_word->conv,
+					       chan_word->turn));
 
 		if (dbg > 5){
 		    printf("Chunk %d: Starting for channel %d  id=%s",
@@ -266,8 +207,8 @@ SCORES *align_ctm_to_ctm(char *hyp_file, char *ref_file, char *set_title, int fe
 		}
 
 		add_PATH_score(scor,path,spkr, keep_path);
-		PATH_add_file(path,ref->word[ref_begin].conv);
-		PATH_add_channel(path,ref->word[ref_begin].turn);
+		PATH_add_file(path,chan_word->conv);
+		PATH_add_channel(path,chan_word->turn);
 		/* PATH_add_label(path,(char *)stm->seg[rs].labels); */
 	
 		ref_begin = ref_chop_end+1;
-- 
2.43.0


From 2ed2f24fea0e94b1f02cee1ddc65e04d61307008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:21 +0000
Subject: [PATCH 009/152] fix: keep a debugging message out of the reports when
 two null words are aligned

---
 src/sclite/net_dp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/net_dp.c b/src/sclite/net_dp.c
index 09cf40f..a1758b6 100644
--- a/src/sclite/net_dp.c
+++ b/src/sclite/net_dp.c
@@ -380,7 +380,7 @@ PATH *extract_NET_ALIGN_result(NET_ALIGN *net_ali,NETWORK *net_a,NETWORK *net_b,
 	    if (!include_nulls &&
 		(net_a->arc_func.is_null_alt(net_ali->arcset_a.arcs[a]->data))&&
 		(net_b->arc_func.is_null_alt(net_ali->arcset_b.arcs[b]->data))){
-		printf("substition of to nulls\n");
+		if (db >= 15) printf("substition of to nulls\n");
 		hops --;
 	    }
 	}
-- 
2.43.0


From 6c14b84c628eaf982dadc319878f37941e61b044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:44 +0000
Subject: [PATCH 010/152] fix: leave speakers without reference words out of
 the summary means

The compaction shifted the percentage arrays but not word_num_arr, so with two
such speakers (or one not last) a speaker with reference words was dropped
and one without kept.
---
 src/sclite/scores.c | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/sclite/scores.c b/src/sclite/scores.c
index 01e194c..06f3bac 100644
--- a/src/sclite/scores.c
+++ b/src/sclite/scores.c
@@ -1382,22 +1382,15 @@ void print_system_summary(SCORES *sc, char *sys_root_name, int do_sm, int do_raw
     /* added by Brett to compute mean, variance, and standard dev */
     if (Zero_spkr > 0) {
       /* remove any speakers data if word_num_arr[spkr] is 0 */
-      for (spkr=0; spkr<sc->num_grp; spkr++){
-	if (word_num_arr[spkr] == 0) {
-	  int s2;
-	  /* shift up the speakers data to fill this one */
-	  for (s2=spkr; s2 < sc->num_grp-1; s2++){
-	    corr_arr[s2] = corr_arr[s2+1];
-	    sub_arr[s2]  = sub_arr[s2+1];
-	    ins_arr[s2]  = ins_arr[s2+1];
-	    del_arr[s2]  = del_arr[s2+1];
-	    err_arr[s2]  = err_arr[s2+1];
-	  }
-	  corr_arr[sc->num_grp-1] =  -1000.0;
-	  sub_arr[sc->num_grp-1]  =  -1000.0;
-	  ins_arr[sc->num_grp-1]  =  -1000.0;
-	  del_arr[sc->num_grp-1]  =  -1000.0;
-	  err_arr[sc->num_grp-1]  =  -1000.0;
+      int s2;
+      for (spkr=0, s2=0; spkr<sc->num_grp; spkr++){
+	if (word_num_arr[spkr] != 0) {
+	  corr_arr[s2] = corr_arr[spkr];
+	  sub_arr[s2]  = sub_arr[spkr];
+	  ins_arr[s2]  = ins_arr[spkr];
+	  del_arr[s2]  = del_arr[spkr];
+	  err_arr[s2]  = err_arr[spkr];
+	  s2++;
 	}
       }
     }
-- 
2.43.0


From d0b58d0011e4afa0a5809c451273175487fc2fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:08 +0000
Subject: [PATCH 011/152] fix: do not read before the asterisk string for words
 longer than 40 characters

---
 src/sclite/path.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sclite/path.c b/src/sclite/path.c
index 13fab30..869d6c5 100644
--- a/src/sclite/path.c
+++ b/src/sclite/path.c
@@ -201,7 +201,7 @@ void PATH_n_print(PATH *path, FILE *fp, int from, int to, int max){
 		  case 0: {
 		      sprintf(fmt,"%%-%ds ",wmax);
 		      if (astr == aster) 
-			  astr = aster + (alen - lenb);
+			  astr = aster + ((lenb < alen) ? alen - lenb : 0);
 		      else {
 			  if (BF_notSET(path->attrib,PA_CASE_SENSE) &&
 			      path->pset[i].eval != P_CORR) {
@@ -238,7 +238,7 @@ void PATH_n_print(PATH *path, FILE *fp, int from, int to, int max){
 		  case 4: {	
 		      sprintf(fmt,"%%-%ds ",wmax);
 		      if (bstr == aster) 
-			  bstr = aster + (alen - lena);
+			  bstr = aster + ((lena < alen) ? alen - lena : 0);
 		      else {
 			  if (BF_notSET(path->attrib,PA_CASE_SENSE) &&
 			      path->pset[i].eval != P_CORR){
@@ -468,7 +468,7 @@ void PATH_n_print_html(PATH *path, FILE *fp, int from, int to, int max, int head
 		  case 0: {
 		      sprintf(fmt,"<TD>%%-%ds</TD>",wmax);
 		      if (astr == aster) 
-			  astr = aster + (alen - lenb);
+			  astr = aster + ((lenb < alen) ? alen - lenb : 0);
 		      else {
 			  if (BF_notSET(path->attrib,PA_CASE_SENSE) &&
 			      path->pset[i].eval != P_CORR) {
@@ -501,7 +501,7 @@ void PATH_n_print_html(PATH *path, FILE *fp, int from, int to, int max, int head
 		  case 4: {	
 		      sprintf(fmt,"<TD>%%s</TD>");
 		      if (bstr == aster) 
-			  bstr = aster + (alen - lena);
+			  bstr = aster + ((lena < alen) ? alen - lena : 0);
 		      else {
 			  if (BF_notSET(path->attrib,PA_CASE_SENSE) &&
 			      path->pset[i].eval != P_CORR){
-- 
2.43.0


From 58bee9449bbebcbddf4736379aba778137f9111b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:22 +0000
Subject: [PATCH 012/152] fix: alignment listing of a word wider than the line
 no longer repeats forever

---
 src/sclite/path.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sclite/path.c b/src/sclite/path.c
index 869d6c5..43c1afc 100644
--- a/src/sclite/path.c
+++ b/src/sclite/path.c
@@ -134,6 +134,7 @@ void PATH_n_print(PATH *path, FILE *fp, int from, int to, int max){
 	}
 	if (used > 0) fprintf(fp,"\n");
 	endpass = i - ((i < to) ? 1 : 0);
+	if (endpass == used) endpass++;  /* a word wider than the line */
 
 	for (line=0; line<11; line++){
 	    switch(line) {
@@ -387,6 +388,7 @@ void PATH_n_print_html(PATH *path, FILE *fp, int from, int to, int max, int head
 	}
 	if (used > 0) fprintf(fp,"\n");
 	endpass = i - ((i < to) ? 1 : 0);
+	if (endpass == used) endpass++;  /* a word wider than the line */
 
 	fprintf(fp,"<TABLE CELLSPACING=0 CELLPADDING=1>\n");
 
-- 
2.43.0


From 1d9ef6d68e63fe84dca18ce0a37c07959b327021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:00 +0000
Subject: [PATCH 013/152] fix: no debugging text on standard output for the
 eleventh category

---
 src/sclite/scores.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/sclite/scores.c b/src/sclite/scores.c
index 06f3bac..1c6d179 100644
--- a/src/sclite/scores.c
+++ b/src/sclite/scores.c
@@ -940,7 +940,6 @@ int parse_input_comment_line(SCORES *sc, TEXT *buf){
 
 	/* parse the category line */
 	if (sc->aset.num_cat == sc->aset.max_cat){
-	    printf("Expanding\n");
 	    expand_singarr(sc->aset.cat,sc->aset.num_cat,
 			   sc->aset.max_cat,2,CATEGORY_ITEM);
 	}
-- 
2.43.0


From 45dc96e7aa9ba652299ffd0aa3a8f1c0cd0541cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:00 +0000
Subject: [PATCH 014/152] fix: labelled utterance report with label ids of 30
 or more characters

---
 src/sclite/lur.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sclite/lur.c b/src/sclite/lur.c
index 840c25e..8f211f6 100644
--- a/src/sclite/lur.c
+++ b/src/sclite/lur.c
@@ -50,7 +50,7 @@ static void free_LABEL_SCORES(LABEL *tlab, SCORES *sc, int nscor)
 
 static void compute_label_scores(SCORES *sc,int scnum, LABEL *lab){
     int i,p,ind,ms=0,sets,id;
-    char *cp,hs[30];
+    char *cp,*hs=(char *)0;
     PATH *path=(PATH *)0;
 
     for (i=0; i<sc->num_grp; i++){
@@ -70,7 +70,7 @@ static void compute_label_scores(SCORES *sc,int scnum, LABEL *lab){
 		    } else
 			ind=0;
 		    if (ind != 0){
-			strncpy(hs,cp,ind);   hs[ind] = '\0';
+			hs = (char *)TEXT_strBdup((TEXT *)cp,ind);
 			/* printf("    set %s\n",hs);*/
 			/* Lookup the set in the label structure */
                         if ((id = find_PATHLABEL_id(sc,hs)) == -1){
@@ -93,6 +93,7 @@ static void compute_label_scores(SCORES *sc,int scnum, LABEL *lab){
 			  lab->lsc[scnum][id][i].nref += c + d + s;
 			  lab->lsc[scnum][id][i].nerr += n + d + s;
 		        }
+			free_singarr(hs,char);
 		        cp += ind+1;
 		    } else
 		        cp ++;
-- 
2.43.0


From a33b524dd3cb4e5d58c7a808dac5eefae931e22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:19 +0000
Subject: [PATCH 015/152] fix: labelled utterance report with more than 15
 labels overflowed its format strings

---
 src/sclite/lur.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/sclite/lur.c b/src/sclite/lur.c
index 8f211f6..a4faaa9 100644
--- a/src/sclite/lur.c
+++ b/src/sclite/lur.c
@@ -132,7 +132,7 @@ static void create_report(LABEL *labels, SCORES *sc, FILE *fp)
 { 
     int j, k, npres, sumr, sume, i;
     int null_spkr_ref=0;
-    char titlefmt[50],fmt[50],categfmt[50];
+    char *titlefmt,*fmt,*categfmt;
     double *ref_words, *err_words;
     double **ref_sts, **err_sts;
     
@@ -140,6 +140,10 @@ static void create_report(LABEL *labels, SCORES *sc, FILE *fp)
     alloc_singarr(err_words,sc->num_grp,double);
     alloc_2dimarr(ref_sts,sc->aset.num_plab,6,double);
     alloc_2dimarr(err_sts,sc->aset.num_plab,6,double);
+    /* each label takes three characters of a format */
+    alloc_singarr(titlefmt,3 * sc->aset.num_plab + 3,char);
+    alloc_singarr(fmt,3 * sc->aset.num_plab + 3,char);
+    alloc_singarr(categfmt,3 * sc->aset.num_plab + 3,char);
     
     /* create the format statements */
     strcpy(titlefmt,"c");
@@ -278,12 +282,15 @@ static void create_report(LABEL *labels, SCORES *sc, FILE *fp)
     free_singarr(err_words,double);
     free_2dimarr(ref_sts,sc->aset.num_plab,double);
     free_2dimarr(err_sts,sc->aset.num_plab,double);
+    free_singarr(titlefmt,char);
+    free_singarr(fmt,char);
+    free_singarr(categfmt,char);
 }
 
 static void create_N_lur_report(LABEL *labels, SCORES *sc[], int nsc, char *test_name, FILE *fp)
 { 
     int j, k, npres, sumr, sume, i, s;
-    char titlefmt[50],fmt[50],categfmt[50],statfmt[50];
+    char *titlefmt,*fmt,*categfmt,*statfmt;
     double *ref_words, *err_words;
     double ***ref_sts, ***err_sts;
     
@@ -291,6 +298,11 @@ static void create_N_lur_report(LABEL *labels, SCORES *sc[], int nsc, char *test
     alloc_singarr(err_words,sc[0]->num_grp,double);
     alloc_3dimarr(ref_sts,nsc,sc[0]->aset.num_plab,6,double);
     alloc_3dimarr(err_sts,nsc,sc[0]->aset.num_plab,6,double);
+    /* each label takes three characters of a format */
+    alloc_singarr(titlefmt,3 * sc[0]->aset.num_plab + 3,char);
+    alloc_singarr(fmt,3 * sc[0]->aset.num_plab + 3,char);
+    alloc_singarr(categfmt,3 * sc[0]->aset.num_plab + 3,char);
+    alloc_singarr(statfmt,3 * sc[0]->aset.num_plab + 3,char);
     
     /* create the format statements */
     strcpy(titlefmt,"c");
@@ -436,6 +448,10 @@ static void create_N_lur_report(LABEL *labels, SCORES *sc[], int nsc, char *test
     free_singarr(err_words,double);
     free_3dimarr(ref_sts,nsc,sc[0]->aset.num_plab,double);
     free_3dimarr(err_sts,nsc,sc[0]->aset.num_plab,double);
+    free_singarr(titlefmt,char);
+    free_singarr(fmt,char);
+    free_singarr(categfmt,char);
+    free_singarr(statfmt,char);
 }
 
 
-- 
2.43.0


From c3d141bd6a76bc2e2435c8a28a9a7aa70b9417d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:01 +0000
Subject: [PATCH 016/152] fix: SGML alignments of words of 1000 or more bytes
 overflowed the stack

---
 src/sclite/scores.c | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/sclite/scores.c b/src/sclite/scores.c
index 1c6d179..d50a08b 100644
--- a/src/sclite/scores.c
+++ b/src/sclite/scores.c
@@ -151,10 +151,34 @@ TEXT *formatWordForSGML(WORD *word, TEXT *buffer){
   return buffer;
 }
 
+/* The most space formatWordForSGML() needs: every byte escaped, two separators and the end */
+static int sizeOfWordForSGML(WORD *word){
+  int len = 0;
+  if (word->value != (TEXT *)0) len += TEXT_strlen(word->value);
+  if (word->tag1 != (TEXT *)0) len += TEXT_strlen(word->tag1);
+  if (word->tag2 != (TEXT *)0) len += TEXT_strlen(word->tag2);
+  return 2 * len + 3;
+}
+
 void dump_SCORES_sgml(SCORES *sc, FILE *fp, TEXT *token_separator, TEXT *token_attribute_separator){
-    int i, p, w;
-    TEXT bufA[1000];
-    TEXT bufB[1000];
+    int i, p, w, len, maxlen = 3;
+    TEXT *bufA;
+    TEXT *bufB;
+
+    for (i=0; i<sc->num_grp; i++)
+	for (p=0; p<sc->grp[i].num_path; p++){
+	    PATH *path = sc->grp[i].path[p];
+	    for (w=0; w<path->num; w++) {
+		if (path->pset[w].eval != P_INS &&
+		    (len = sizeOfWordForSGML((WORD *)path->pset[w].a_ptr)) > maxlen)
+		    maxlen = len;
+		if (path->pset[w].eval != P_DEL &&
+		    (len = sizeOfWordForSGML((WORD *)path->pset[w].b_ptr)) > maxlen)
+		    maxlen = len;
+	    }
+	}
+    alloc_singarr(bufA,maxlen,TEXT);
+    alloc_singarr(bufB,maxlen,TEXT);
 
     fprintf(fp,"<SYSTEM title=\"%s\"",sc->title);
     fprintf(fp," ref_fname=\"%s\"",sc->ref_fname);
@@ -336,6 +360,8 @@ void dump_SCORES_sgml(SCORES *sc, FILE *fp, TEXT *token_separator, TEXT *token_a
     }
 
     fprintf(fp,"</SYSTEM>\n");
+    free_singarr(bufA,TEXT);
+    free_singarr(bufB,TEXT);
 }
  
 int load_SCORES_sgml(FILE *fp, SCORES **scor, int *nscor, int maxn)
-- 
2.43.0


From fbf6c3750ec2e34372fb3c27ff5b3ec26ef63060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:57 +0000
Subject: [PATCH 017/152] fix: -p writes alignments in the form that -P reads

---
 src/sclite/sclite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/sclite.c b/src/sclite/sclite.c
index 076a22b..fb74845 100644
--- a/src/sclite/sclite.c
+++ b/src/sclite/sclite.c
@@ -372,7 +372,7 @@ int main(int argc, char **argv){
 
     if (pipeout)
 	for (nsc=0; nsc < num_hyps + num_piped; nsc++)
-	    dump_SCORES_sgml(scor[nsc],stdout,(TEXT *)"\n",(TEXT *)"\n");
+	    dump_SCORES_sgml(scor[nsc],stdout,(TEXT *)":",(TEXT *)",");
 
     /* clean up the score structures */
     for (nsc=0; nsc < num_hyps + num_piped; nsc++)
-- 
2.43.0


From 4d72e00652a2b4c85fa548044e8c88596ab2a108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:57 +0000
Subject: [PATCH 018/152] fix: keep piped-in systems when -P is combined with
 -r and -h

---
 src/sclite/sclite.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/sclite/sclite.c b/src/sclite/sclite.c
index fb74845..34410dd 100644
--- a/src/sclite/sclite.c
+++ b/src/sclite/sclite.c
@@ -202,19 +202,19 @@ int main(int argc, char **argv){
 	    }
 	    if (strcmp(reffmt,"trn") == 0 && strcmp(hypfmt[nh],"trn") == 0)
 		if (!use_diff)
-		    scor[nh]=align_trans_mode_dp(refname,hypname[nh],title[nh],
+		    scor[nsc]=align_trans_mode_dp(refname,hypname[nh],title[nh],
 						 1,case_sense,feedback,
 						 char_align,id_type,
 						 infered_wordseg, lexicon,
 						 frag_correct, opt_del, 
 						 inf_flags, wwl, lm_file);
 		else
-		    scor[nh]=align_trans_mode_diff(refname,hypname[nh],
+		    scor[nsc]=align_trans_mode_diff(refname,hypname[nh],
 						   title[nh],1,case_sense,
 						   feedback,id_type);
 	    else if (strcmp(reffmt,"stm")== 0 && strcmp(hypfmt[nh],"ctm") == 0)
 		if (!use_diff)
-		    scor[nh]=align_ctm_to_stm_dp(refname,hypname[nh],title[nh],
+		    scor[nsc]=align_ctm_to_stm_dp(refname,hypname[nh],title[nh],
 						 1, case_sense,feedback,
 						 char_align,id_type,
 						 infered_wordseg, lexicon,
@@ -225,7 +225,7 @@ int main(int argc, char **argv){
 						 left_to_right, wwl, lm_file);
 		else {
 		  if (left_to_right)
-		    scor[nh]=align_ctm_to_stm_diff(refname, hypname[nh],
+		    scor[nsc]=align_ctm_to_stm_diff(refname, hypname[nh],
 						   title[nh],1,case_sense,
 						   feedback,id_type);
 		  else {
@@ -235,14 +235,14 @@ int main(int argc, char **argv){
 		  }
 		}
 	    else if (strcmp(reffmt,"ctm")== 0 && strcmp(hypfmt[nh],"ctm") == 0)
-	      scor[nh]=align_ctm_to_ctm(hypname[nh], refname, title[nh],
+	      scor[nsc]=align_ctm_to_ctm(hypname[nh], refname, title[nh],
 					feedback, frag_correct, opt_del,
 					case_sense, time_align, left_to_right, wwl,
 					lm_file);
 	    else if (strcmp(reffmt,"stm")== 0 && strcmp(hypfmt[nh],"txt") ==0){
 #if DIFF_ENABLED
 	      if (left_to_right)
-		scor[nh] =align_text_to_stm(refname, hypname[nh],title[nh],
+		scor[nsc] =align_text_to_stm(refname, hypname[nh],title[nh],
 					    1,case_sense,feedback,id_type);
 	      else {
 		fprintf(scfp,"Error: can't perform diff alignments on "
@@ -258,7 +258,7 @@ int main(int argc, char **argv){
 		exit(1);
 	    }
 	    
-	    if (scor[nh] == (SCORES *)0){
+	    if (scor[nsc] == (SCORES *)0){
 		fprintf(stderr,"%s: Alignment failed.  Exiting.\n",prog);
 		exit(1);
 	    }
-- 
2.43.0


From 57416370bb296049715e8ca121853cc029377334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:44 +0000
Subject: [PATCH 019/152] fix: -P reads back words holding a semicolon and word
 tags

---
 src/sclite/scores.c |  6 ++++--
 src/sclite/word.c   | 15 +++++++++++++++
 src/sclite/word.h   |  1 +
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/sclite/scores.c b/src/sclite/scores.c
index d50a08b..b57ebe5 100644
--- a/src/sclite/scores.c
+++ b/src/sclite/scores.c
@@ -658,7 +658,8 @@ int load_SCORES_sgml(FILE *fp, SCORES **scor, int *nscor, int maxn)
 			goto FAIL;
 		    }
 		    p2 = TEXT_strchr(p1+2,'"');
-		    wd1->value = TEXT_strBdup(p1+2,p2 - (p1+2));
+		    *p2 = '\0';
+		    parse_WORD_tags(wd1, p1+2);
 		    p1 = p2+1;
 		    if (dbg)
 			fprintf(scfp,"%s: first word '%s'\n",proc,wd1->value);
@@ -677,7 +678,8 @@ int load_SCORES_sgml(FILE *fp, SCORES **scor, int *nscor, int maxn)
 			goto FAIL;
 		    }
 		    p2 = TEXT_strchr(p1+2,'"');
-		    wd2->value = TEXT_strBdup(p1+2,p2 - (p1+2));
+		    *p2 = '\0';
+		    parse_WORD_tags(wd2, p1+2);
 		    p1 = p2+1;
 		    if (dbg) fprintf(scfp,"%s: second word '%s'\n",
 				     proc,wd2->value);
diff --git a/src/sclite/word.c b/src/sclite/word.c
index f4aadf8..a4bc6bd 100644
--- a/src/sclite/word.c
+++ b/src/sclite/word.c
@@ -257,6 +257,21 @@ TEXT *nextColon(TEXT *t){
   return (t + extentPos);
 }
 
+/* Set the value and tags of a word from the text 'value[;tag1[;tag2]]', without the escapes */
+void parse_WORD_tags(WORD *w, TEXT *t){
+  TEXT **field[3];
+  TEXT *endOfElement;
+  int i;
+
+  field[0] = &(w->value); field[1] = &(w->tag1); field[2] = &(w->tag2);
+  for (i=0; i<3; i++){
+    endOfElement = nextColon(t);
+    *(field[i]) = TEXT_strBdup_noEscape(t, endOfElement - t);
+    if (*endOfElement == NULL_TEXT) break;
+    t = endOfElement + 1;
+  }
+}
+
 /* This procudure parses the text for tag1 and tag2 */
 WORD *new_WORD_parseText(TEXT *t, int id, double t1, double t2, double conf, int fcorr, int odel, double weight){
   TEXT *endOfElement;
diff --git a/src/sclite/word.h b/src/sclite/word.h
index 528cb1f..7e0f551 100644
--- a/src/sclite/word.h
+++ b/src/sclite/word.h
@@ -41,6 +41,7 @@ float wwd_weight_WORD(void *p1, void *p2, int (*cmp)(void *p1, void *p2));
 float wwd_WORD_rover(void *p1, void *p2, int (*cmp)(void *p1, void *p2));
 WORD *get_WORD(void);
 WORD *new_WORD_parseText(TEXT *t, int id, double t1, double t2, double conf, int fcorr, int odel, double weight);
+void parse_WORD_tags(WORD *w, TEXT *t);
 WORD *new_WORD(TEXT *t, int id, double t1, double t2, double conf, TEXT *tag1, TEXT *tag2, int frag, int opt_del, double weight);
 void release_WORD(void *p);
 void *copy_WORD(void *p);
-- 
2.43.0


From f79ca78ab44bb297c4727d916e4971e521254f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:00 +0000
Subject: [PATCH 020/152] fix: -P reads back word-weighted alignments

---
 src/sclite/scores.c | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/sclite/scores.c b/src/sclite/scores.c
index b57ebe5..dac3aef 100644
--- a/src/sclite/scores.c
+++ b/src/sclite/scores.c
@@ -160,6 +160,21 @@ static int sizeOfWordForSGML(WORD *word){
   return 2 * len + 3;
 }
 
+/* An attribute value can not hold a double quote, write it as an entity */
+static void print_quoted_SGML_attrib(FILE *fp, char *value){
+  for (; *value != '\0'; value++)
+    if (*value == '"') fprintf(fp,"&quot;");
+    else fputc(*value,fp);
+}
+
+static void unquote_SGML_attrib(char *value){
+  char *p;
+  for (p = value; (p = strstr(p,"&quot;")) != NULL; p++){
+    *p = '"';
+    memmove(p + 1, p + 6, strlen(p + 6) + 1);
+  }
+}
+
 void dump_SCORES_sgml(SCORES *sc, FILE *fp, TEXT *token_separator, TEXT *token_attribute_separator){
     int i, p, w, len, maxlen = 3;
     TEXT *bufA;
@@ -188,7 +203,9 @@ void dump_SCORES_sgml(SCORES *sc, FILE *fp, TEXT *token_separator, TEXT *token_a
     fprintf(fp," frag_corr=\"%s\"", sc->frag_corr ? "TRUE" : "FALSE");
     fprintf(fp," opt_del=\"%s\"", sc->opt_del ? "TRUE" : "FALSE");
     fprintf(fp," weight_ali=\"%s\"", sc->weight_ali ? "TRUE" : "FALSE");
-    fprintf(fp," weight_filename=\"%s\"", sc->weight_ali ? sc->weight_file : "");
+    fprintf(fp," weight_filename=\"");
+    if (sc->weight_ali) print_quoted_SGML_attrib(fp,sc->weight_file);
+    fprintf(fp,"\"");
     fprintf(fp,">\n");
 
     for (i=0; i<sc->aset.num_plab; i++)
@@ -435,6 +452,7 @@ int load_SCORES_sgml(FILE *fp, SCORES **scor, int *nscor, int maxn)
 		  sga = get_SGML_attrib(&sg,sg.num_tags-1,
 					(TEXT *)"weight_filename");
 		  tscor->weight_file = (char *)TEXT_strdup(sga);
+		  unquote_SGML_attrib(tscor->weight_file);
 		} else
 		  tscor->weight_ali = FALSE;
 		
-- 
2.43.0


From 4c65d9afa25592db89c45ba5c60e2d4e569d9859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:58 +0000
Subject: [PATCH 021/152] fix: -c DH deletes hyphens standing alone, and no
 longer crashes on a word of hyphens

---
 src/sclite/align.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index fb8e222..3a02e17 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -682,7 +682,8 @@ void expand_words_to_chars(ARC *arc, void *ptr){
 
     if (chars == (TEXT *)0) alloc_singZ(chars,chars_len,TEXT,'\0');
     /* it the string is already a single letter, return */
-    if (TEXT_strlen(tw->value) <= 1)
+    if (TEXT_strlen(tw->value) <= 1 &&
+	! ((*((int *)ptr) & CALI_DELHYPHEN) != 0 && *(tw->value) == '-'))
 	return;
 
     if (db >= 5) {
@@ -693,7 +694,9 @@ void expand_words_to_chars(ARC *arc, void *ptr){
     sprintf(buf,"expand-net %d",alt);
     TEXT_separate_chars((!tw->opt_del) ? tw->value : tw->intern_value,
 			&chars,&chars_len,*((int *)ptr));
-			
+    /* a word of deleted hyphens only leaves nothing, use the null word */
+    if (*chars == NULL_TEXT) TEXT_strcpy(chars,(TEXT *)"@");
+
 //    printf("   from /%s/ comes /%s/\n",(!tw->opt_del) ? tw->value : tw->intern_value, chars);
     
     // Escape the semicolon
@@ -720,7 +723,7 @@ void expand_words_to_chars(ARC *arc, void *ptr){
 	/* durations based on the original word */
 	{  
 	  double dur = tw->T_dur/subnet->arc_count, t1 = tw->T1, conf = tw->conf;
-	  int od = tw->opt_del;
+	  int od = tw->opt_del && TEXT_strcmp(chars,(TEXT *)"@") != 0;
 	  Network_traverse(subnet,NULL,0,set_word_duration,&dur,0);
 	  Network_traverse(subnet,NULL,0,set_word_start,&t1,0);
 	  Network_traverse(subnet,NULL,0,set_word_conf,&conf,0);
-- 
2.43.0


From 9c84e81291437393d16a107ee69b18d2d3b7c445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:13 +0000
Subject: [PATCH 022/152] fix: weighted summary totals no longer drop the
 fractions of the weights

---
 src/sclite/scores.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sclite/scores.c b/src/sclite/scores.c
index dac3aef..810218a 100644
--- a/src/sclite/scores.c
+++ b/src/sclite/scores.c
@@ -1101,7 +1101,8 @@ void add_PATH_score(SCORES *sc, PATH *path, int g, int keep_path){
 /************************************************************************/
 void print_system_summary(SCORES *sc, char *sys_root_name, int do_sm, int do_raw, int do_weighted, int feedback)
 {
-    int spkr, tot_corr=0, tot_sub=0, tot_del=0;
+    int spkr;
+    double tot_corr=0, tot_sub=0, tot_del=0; /* word weights need not be integers */
     int total_sents=0, char_align=0, np=0;
     FILE *fp;
     char *fname;
@@ -1110,8 +1111,8 @@ void print_system_summary(SCORES *sc, char *sys_root_name, int do_sm, int do_raw
     double *corr_arr, *sub_arr, *del_arr, *ins_arr, *err_arr, *serr_arr;
     double *spl_arr, *mrg_arr, *nce_arr;
 
-    int tot_ins=0, tot_ref =0, tot_st=0, tot_st_er=0;
-    int tot_spl=0, tot_mrg=0, tot_word=0;
+    double tot_ins=0, tot_ref =0, tot_spl=0, tot_mrg=0;
+    int tot_st=0, tot_st_er=0, tot_word=0;
     double median_corr, median_del, median_ins, median_sub, median_err;
     double median_spl, median_mrg, median_serr, median_nce;
     double mean_corr, mean_del, mean_ins, mean_sub, mean_err, mean_serr;
-- 
2.43.0


From 635b390e4b883552a1fc43866d2e64e6251bd85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:22 +0000
Subject: [PATCH 023/152] fix: weighting a compound word of 100 or more bytes
 overflowed the stack

---
 src/sclite/wwscr_f.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sclite/wwscr_f.c b/src/sclite/wwscr_f.c
index 78d2b2e..eadaf32 100644
--- a/src/sclite/wwscr_f.c
+++ b/src/sclite/wwscr_f.c
@@ -255,12 +255,12 @@ static void make_speaker_summary(WWL_SCORE *wwlscore, FILE *fp)
 double Weight_wwl(TEXT *str, WWL *wwl)
 {
     double sum=0.0;
-    TEXT buffer[100], *p;
+    TEXT *buffer, *p;
 
     if (TEXT_strchr(str, '=') == (TEXT *)0)
       return (get_weight_from_WW(wwl, str));
 
-    TEXT_strcpy(buffer,str);
+    buffer = TEXT_strdup(str);
     /* Loop through each sub-word and compute the weight */
     /* printf("LOOK AT %s\n",buffer); */
     p = TEXT_strtok(buffer,(TEXT *)"=");
@@ -272,6 +272,7 @@ double Weight_wwl(TEXT *str, WWL *wwl)
 
 	p = TEXT_strtok(NULL,(TEXT *)"=");
     }
+    TEXT_free(buffer);
     return(sum);
 }
 
-- 
2.43.0


From 07050be935b5022264dc6f31fa8ea7eec5481d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:51 +0000
Subject: [PATCH 024/152] Revert "fix: weighted summary totals no longer drop
 the fractions of the weights"

This reverts commit 9c84e81291437393d16a107ee69b18d2d3b7c445.
---
 src/sclite/scores.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/sclite/scores.c b/src/sclite/scores.c
index 810218a..dac3aef 100644
--- a/src/sclite/scores.c
+++ b/src/sclite/scores.c
@@ -1101,8 +1101,7 @@ void add_PATH_score(SCORES *sc, PATH *path, int g, int keep_path){
 /************************************************************************/
 void print_system_summary(SCORES *sc, char *sys_root_name, int do_sm, int do_raw, int do_weighted, int feedback)
 {
-    int spkr;
-    double tot_corr=0, tot_sub=0, tot_del=0; /* word weights need not be integers */
+    int spkr, tot_corr=0, tot_sub=0, tot_del=0;
     int total_sents=0, char_align=0, np=0;
     FILE *fp;
     char *fname;
@@ -1111,8 +1110,8 @@ void print_system_summary(SCORES *sc, char *sys_root_name, int do_sm, int do_raw
     double *corr_arr, *sub_arr, *del_arr, *ins_arr, *err_arr, *serr_arr;
     double *spl_arr, *mrg_arr, *nce_arr;
 
-    double tot_ins=0, tot_ref =0, tot_spl=0, tot_mrg=0;
-    int tot_st=0, tot_st_er=0, tot_word=0;
+    int tot_ins=0, tot_ref =0, tot_st=0, tot_st_er=0;
+    int tot_spl=0, tot_mrg=0, tot_word=0;
     double median_corr, median_del, median_ins, median_sub, median_err;
     double median_spl, median_mrg, median_serr, median_nce;
     double mean_corr, mean_del, mean_ins, mean_sub, mean_err, mean_serr;
-- 
2.43.0


From 5ffd11eeda2561b6974396adae7be9cb63f7d88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:51 +0000
Subject: [PATCH 025/152] fix: with -w a null word '@' of weight zero is no
 longer reported as substituted

---
 src/sclite/word.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sclite/word.c b/src/sclite/word.c
index a4bc6bd..0eb9edb 100644
--- a/src/sclite/word.c
+++ b/src/sclite/word.c
@@ -146,6 +146,10 @@ float wwd_weight_WORD(void *p1, void *p2, int (*cmp)(void *p1, void *p2)){
     /*     return (fabs(w1->weight - w2->weight) 
 	    + ((cmp(p1,p2) == 0) ? 0.000 : 0.001)); */
     if (cmp(p1,p2) == 0) return(0.0);
+    /* a null word is no word to be substituted: leaving it unmatched is cheaper */
+    if (TEXT_strcmp(w1->value, (TEXT *)"@") == 0 || 
+	TEXT_strcmp(w2->value, (TEXT *)"@") == 0)
+	return (w1->weight + w2->weight + 0.002);
     return (w1->weight + w2->weight);
 }
 
-- 
2.43.0


From 81562d143d36daf6b7dddf2d1493fd4a88fcb88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:20 +0000
Subject: [PATCH 026/152] fix: alignment by diff dropped hypothesis words after
 the last reference word

---
 src/sclite/align.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index 3a02e17..de9c7aa 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -1054,6 +1054,10 @@ SCORES *align_trans_mode_diff(char *ref_file, char *hyp_file, char *set_title, i
 		     ((TEXT_strcmp(firsttoken,ctext) != 0) || num_hyp==0));
 	    ctext = tokenize_TEXT_first_alt(NULL,(TEXT *)" \t\n");
 	}
+	/* the last utterance takes all that is left, even without ref words */
+	while (num_hyp == 0 &&
+	       TEXT_ensure_fgets(&diff_out,&diff_out_len,fp_diff) != NULL)
+	    process_diff_line(diff_out,path,&firsttoken);
 
 	PATH_add_utt_id(path,(char *)hyp_id);
 	PATH_set_sequence(path);
@@ -1274,9 +1278,14 @@ SCORES *align_ctm_to_stm_diff(char *ref_file, char *hyp_file, char *set_title, i
 			process_diff_line(diff_out,path,&firsttoken);
 		    } while (!feof(fp_diff) && 
 			     ((TEXT_strcmp(firsttoken,ctext) != 0) ||
-			      r== r_end + (r_end==stm->num)?-1:0));
+			      r == r_end + ((r_end==stm->num)?-1:0)));
 		    ctext = tokenize_TEXT_first_alt(NULL,(TEXT *)" \t\n");
 		}
+		/* the last segment takes all that is left */
+		while (r == r_end + ((r_end==stm->num)?-1:0) &&
+		       TEXT_ensure_fgets(&diff_out,&diff_out_len,fp_diff)
+		       != NULL)
+		    process_diff_line(diff_out,path,&firsttoken);
 		spkr = SCORES_get_grp(scor,(char *)stm->seg[r].spkr);
 		PATH_add_utt_id(path,rsprintf("(%s-%03d)",stm->seg[r].spkr,
 					      scor->grp[spkr].nsent));
@@ -1426,6 +1435,10 @@ SCORES *align_text_to_stm(char *ref_file, char *hyp_file, char *set_title, int k
 		     ((TEXT_strcmp(firsttoken,ctext) != 0) || num_ref==0));
 	    ctext = tokenize_TEXT_first_alt(NULL,(TEXT *)" \t\n");
 	}
+	/* the last segment takes all that is left, even without ref words */
+	while (num_ref == 0 &&
+	       TEXT_ensure_fgets(&diff_out,&diff_out_len,fp_diff) != NULL)
+	    process_diff_line(diff_out,path,&firsttoken);
 
 	spkr = SCORES_get_grp(scor,(char *)ref_seg.spkr);
 	PATH_add_utt_id(path,rsprintf("(%s-%03d)",ref_seg.spkr,
-- 
2.43.0


From c10c054b6bbd98027a78b7629ef66f9de6cee2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:20 +0000
Subject: [PATCH 027/152] fix: alignment of ctm to stm by diff recorded the
 channel as the file name

---
 src/sclite/align.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index de9c7aa..fa031b1 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -1291,7 +1291,7 @@ SCORES *align_ctm_to_stm_diff(char *ref_file, char *hyp_file, char *set_title, i
 					      scor->grp[spkr].nsent));
 		PATH_set_sequence(path);
 		PATH_add_label(path,(char *)stm->seg[r].labels);
-		PATH_add_file(path,(char *)stm->seg[r].chan);
+		PATH_add_file(path,(char *)stm->seg[r].file);
 		PATH_add_channel(path,(char *)stm->seg[r].chan);
 		if (case_sense) BF_SET(path->attrib,PA_CASE_SENSE);
 		add_PATH_score(scor,path,spkr, keep_path);
-- 
2.43.0


From 777f813e9355e16ffeaac3f9334c3210b4654ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:02 +0000
Subject: [PATCH 028/152] fix: alignment by diff lost a second channel of one
 word

---
 src/sclite/align.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index fa031b1..85b945f 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -1173,7 +1173,7 @@ SCORES *align_ctm_to_stm_diff(char *ref_file, char *hyp_file, char *set_title, i
 
 	/* find the end of the second channel for the hyp file */
 	locate_WTOKE_boundary(hyp_segs, hyp_segs->s, 1, 1, &hyp_end_chan1);
-	if (hyp_end_chan1+1 < hyp_segs->n &&
+	if (hyp_end_chan1+1 <= hyp_segs->n &&
             strcmp(hyp_segs->word[hyp_segs->s].conv,
 		   hyp_segs->word[hyp_end_chan1+1].conv)==0){
             locate_WTOKE_boundary(hyp_segs,hyp_end_chan1+1,1,1,&hyp_end_chan2);
-- 
2.43.0


From 9d0557851ee6f29a20d6965ab79c6ae0e841b0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:25 +0000
Subject: [PATCH 029/152] fix: scoring text against stm dropped a last stm line
 without newline

---
 src/sclite/align.c | 5 ++++-
 src/sclite/stm.c   | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index 85b945f..b6e884b 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -1414,7 +1414,10 @@ SCORES *align_text_to_stm(char *ref_file, char *hyp_file, char *set_title, int k
     while (!feof(fp_ref)){
 	/* read the next ref line */
 	read_stm_line(&ref_buf,&ref_buf_len,fp_ref);
-	if (feof(fp_ref)) break;
+	if (feof(fp_ref) && (TEXT_is_comment(ref_buf) ||
+			     TEXT_is_comment_info(ref_buf) ||
+			     TEXT_is_empty(ref_buf)))
+	    break;
 
 	/* parse the reference transcript */
 	parse_stm_line(&ref_seg, &ref_buf, &ref_buf_len, case_sense, 0);
diff --git a/src/sclite/stm.c b/src/sclite/stm.c
index c96de43..7e27266 100644
--- a/src/sclite/stm.c
+++ b/src/sclite/stm.c
@@ -232,7 +232,9 @@ void convert_stm_to_word_list(char *file, char *words, int case_sense, int *num_
     while (!feof(fp)){
 	/* read the next ref line */
 	read_stm_line(&buf,&buf_len,fp);
-	if (feof(fp)) break;
+	if (feof(fp) && (TEXT_is_comment(buf) || TEXT_is_comment_info(buf) ||
+			 TEXT_is_empty(buf)))
+	    break;
 
 	/* parse the reference transcript */
 	parse_stm_line(&seg,&buf,&buf_len,case_sense,0);
-- 
2.43.0


From 6f163cac87ec28afadc7f5d6c83f02b5379a6ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:25 +0000
Subject: [PATCH 030/152] fix: concurrent alignments by diff could use the same
 temporary files

---
 src/sclite/align.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index b6e884b..eb908b0 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -943,22 +943,22 @@ void process_diff_line(TEXT *diff_out, PATH *path, TEXT **firsttoken){
 }
 
 void set_temp_files(char *refwords, char *hypwords){
-    int pid = getpid();
-    int max=30, n=0, fail;
-    struct stat fileinfo;
+    int rfd, hfd;
 
-    do {
-	sprintf(refwords,"/tmp/ref.%d",pid+n);
-	sprintf(hypwords,"/tmp/hyp.%d",pid+n);
-	n++;
-	fail = (stat(refwords,&fileinfo) == 0) ||
-	       (stat(hypwords,&fileinfo) == 0);
-    } while (fail && (n < max));
-    if (fail){
-	fprintf(stderr,"Can't locate temp file names. Searched /tmp/ref.[%d-%d]\n",
-		pid,pid+n);
+    /* create the files, so that no concurrent run gets the same names */
+    strcpy(refwords,"/tmp/ref.XXXXXX");
+    strcpy(hypwords,"/tmp/hyp.XXXXXX");
+    if ((rfd = mkstemp(refwords)) < 0){
+	fprintf(stderr,"Can't create temp file '%s'\n",refwords);
+	exit(1);
+    }
+    if ((hfd = mkstemp(hypwords)) < 0){
+	fprintf(stderr,"Can't create temp file '%s'\n",hypwords);
+	unlink(refwords);
 	exit(1);
     }
+    close(rfd);
+    close(hfd);
 }
 
 SCORES *align_trans_mode_diff(char *ref_file, char *hyp_file, char *set_title, int keep_path, int case_sense, int feedback, enum id_types idt){
-- 
2.43.0


From 65b0615d4fc9eae89c6e46666491e015047b30ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:41 +0000
Subject: [PATCH 031/152] fix: alignment by diff wrote past its buffer for
 transcripts of about 100 bytes

---
 src/sclite/align.c | 4 ++--
 src/sclite/stm.c   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index eb908b0..a4f3cf6 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -856,10 +856,10 @@ void create_word_lists(SCORES *sc, TEXT **reftran, TEXT **refid, int refcnt, cha
 	rind = ind - refid;
 
 	/* Write each individual word to a file */
-	if (TEXT_strlen(reftran[rind]) > tbuf_len+1){
+	if (TEXT_strlen(reftran[rind]) >= tbuf_len){
 	    free_singarr(tbuf,TEXT);
 	    tbuf = TEXT_strdup(reftran[rind]);
-	    tbuf_len = TEXT_strlen(tbuf);
+	    tbuf_len = TEXT_strlen(tbuf)+1;
 	} else
 	    TEXT_strcpy(tbuf,reftran[rind]);
 
diff --git a/src/sclite/stm.c b/src/sclite/stm.c
index 7e27266..f97b6a7 100644
--- a/src/sclite/stm.c
+++ b/src/sclite/stm.c
@@ -180,10 +180,10 @@ void dump_STM_words(STM *stm,int s, int e, char *file){
 
     for (i=s; i<=e; i++){
 	/* Write each individual word to a file */
-	if (TEXT_strlen(stm->seg[i].text) > tbuf_len+1){
+	if (TEXT_strlen(stm->seg[i].text) >= tbuf_len){
 	    free_singarr(tbuf,TEXT);
 	    tbuf = TEXT_strdup(stm->seg[i].text);
-	    tbuf_len = TEXT_strlen(tbuf);
+	    tbuf_len = TEXT_strlen(tbuf)+1;
 	} else
 	    TEXT_strcpy(tbuf,stm->seg[i].text);
 
-- 
2.43.0


From 624375e1d97bbc0ffa9c0dcf6a2d90527c602b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:32 +0000
Subject: [PATCH 032/152] Revert "fix: alignment of ctm to stm by diff recorded
 the channel as the file name"

This reverts commit c10c054b6bbd98027a78b7629ef66f9de6cee2ac.
---
 src/sclite/align.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index a4f3cf6..4bf7c5c 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -1291,7 +1291,7 @@ SCORES *align_ctm_to_stm_diff(char *ref_file, char *hyp_file, char *set_title, i
 					      scor->grp[spkr].nsent));
 		PATH_set_sequence(path);
 		PATH_add_label(path,(char *)stm->seg[r].labels);
-		PATH_add_file(path,(char *)stm->seg[r].file);
+		PATH_add_file(path,(char *)stm->seg[r].chan);
 		PATH_add_channel(path,(char *)stm->seg[r].chan);
 		if (case_sense) BF_SET(path->attrib,PA_CASE_SENSE);
 		add_PATH_score(scor,path,spkr, keep_path);
-- 
2.43.0


From 07039e484274d5a30d6a63210c719b450f2eb304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:09 +0000
Subject: [PATCH 033/152] fix: DET curve ran past its arrays when no word was
 incorrect

---
 src/sclite/det.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/sclite/det.c b/src/sclite/det.c
index d31515c..029e661 100644
--- a/src/sclite/det.c
+++ b/src/sclite/det.c
@@ -69,6 +69,7 @@ int make_SCORES_DET_curve(SCORES *scor[], int nscor, char *outroot, int feedback
 
     /* biuld the target and non-target arrays */
     for (s=0; s<nscor; s++){
+      n_targ = n_non_targ = 0;
       alloc_singZ(targ,max_targ,double,0.0);
       alloc_singZ(non_targ,max_non_targ,double,0.0);
 
@@ -79,12 +80,12 @@ int make_SCORES_DET_curve(SCORES *scor[], int nscor, char *outroot, int feedback
 	    for (w=0; w<pp->num; w++) {
 	        if (pp->pset[w].eval == P_CORR &&
 		    *(((WORD*)pp->pset[w].b_ptr)->value) != (TEXT)'\0'){
-		    if (n_targ >= max_targ) 
+		    if (n_targ + 1 >= max_targ) 
 		        expand_singarr(targ,n_targ,max_targ,2,double);
 		    targ[n_targ++] = ((WORD *)(pp->pset[w].b_ptr))->conf;
 		} else if (pp->pset[w].eval == P_SUB || 
 			   pp->pset[w].eval == P_INS){
-		    if (n_non_targ >= max_non_targ) 
+		    if (n_non_targ + 1 >= max_non_targ) 
 		        expand_singarr(non_targ,n_non_targ,
 				       max_non_targ,2,double);
 		    non_targ[n_non_targ++] =
@@ -95,7 +96,7 @@ int make_SCORES_DET_curve(SCORES *scor[], int nscor, char *outroot, int feedback
       }
       
       /* allocate the DET table */
-      alloc_2dimZ(det,(n_targ+n_non_targ),2,double,0.0);
+      alloc_2dimZ(det,(n_targ+n_non_targ+1),2,double,0.0);
       /* calculate the DET Curve */
       Compute_ROC (targ, n_targ, non_targ, n_non_targ, det);
 
@@ -115,7 +116,7 @@ int make_SCORES_DET_curve(SCORES *scor[], int nscor, char *outroot, int feedback
       if (s < nscor-1) fprintf(fpd,", \\");
       fprintf(fpd,"\n");
 
-      if (det != (double**)0) free_2dimarr(det,(n_targ+n_non_targ),double);
+      if (det != (double**)0) free_2dimarr(det,(n_targ+n_non_targ+1),double);
       if (targ != (double *)0)     free_singarr(targ,double);
       if (non_targ != (double *)0) free_singarr(non_targ,double);
     }
@@ -135,7 +136,7 @@ int make_SCORES_DET_curve(SCORES *scor[], int nscor, char *outroot, int feedback
   END:
     if (targ != (double *)0)     free_singarr(targ,double);
     if (non_targ != (double *)0) free_singarr(non_targ,double);
-    if (det != (double**)0)      free_2dimarr(det,(n_targ+n_non_targ),double);
+    if (det != (double**)0)      free_2dimarr(det,(n_targ+n_non_targ+1),double);
     return(rtn);
 }
 
@@ -211,8 +212,9 @@ static void Compute_ROC (double *true_scores, int num_true, double *false_scores
 	
       /* bug fix JGF, the previous expression assumed an highest score would
 	 ALLWAYS be a TRUE score */
-	if ((true_scores[ntrue] <= false_scores[nfalse]) &&
-	    (ntrue < num_true))
+	if ((ntrue < num_true) &&
+	    ((nfalse >= num_false) ||
+	     (true_scores[ntrue] <= false_scores[nfalse])))
 	    ntrue = ntrue+1;
 	else
 	    nfalse = nfalse+1;
-- 
2.43.0


From e363500c4f34751088a1860044a8858c84ac01cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:09 +0000
Subject: [PATCH 034/152] fix: extended ASCII case folding changed the
 multiplication sign and sharp s

---
 src/sclite/text.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sclite/text.c b/src/sclite/text.c
index af34db0..20f4543 100644
--- a/src/sclite/text.c
+++ b/src/sclite/text.c
@@ -1149,9 +1149,10 @@ TEXT *TEXT_str_to_master(TEXT *bufTEXT, int toLow){
           TEXT_strCcpy(hptr, buf, 1);
           if (is_EXTASC(hptr)) { 
             if (toLow) {
-              if (*hptr >= 192 && *hptr <= 223) { *hptr += 32; } 
+              /* the multiplication sign (215) and sharp s (223) have no lower case here */
+              if (*hptr >= 192 && *hptr < 223 && *hptr != 215) { *hptr += 32; } 
             } else {
-              if (*hptr >= 224) *hptr -= 32;
+              if (*hptr >= 224 && *hptr < 255 && *hptr != 247) *hptr -= 32;
             }
           } else {
             *hptr = (toLow ? tolower(*hptr) :  toupper(*hptr));  // ONLY if 1 char
-- 
2.43.0


From d78d85f1da43116d18f3734ae9dfc4aaedb715d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:24 +0000
Subject: [PATCH 035/152] fix: rover lost the last one-word section and mixed
 words of different channels

---
 src/sclite/mfa.c    | 35 +++++++++++++++++++++--------------
 src/sclite/net_dp.c |  1 +
 src/sclite/rover.c  | 16 ++++++++++------
 3 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/sclite/mfa.c b/src/sclite/mfa.c
index 13b3dec..4f8ec3e 100644
--- a/src/sclite/mfa.c
+++ b/src/sclite/mfa.c
@@ -144,27 +144,34 @@ NETWORK *perform_mfalign(WTOKE_STR1 **ctms, int nctm, int *end, int time_align){
 
     
 void locate_next_file_channel(WTOKE_STR1 **ctms, int nctm, FILE **files, char **hypname, int *eofs, int *conv_end, int case_sense, int feedback){
-    int in;
+    int in, first = -1;  /* first: the first system with words left */
 
     /* locate the file boundaries */
     for (in=0; in < nctm; in++){ 
 	fill_WTOKE_structure(ctms[in], files[in], hypname[in],
 			     &(eofs[in]), case_sense);
 	locate_boundary(ctms[in], ctms[in]->s, TRUE,TRUE,&(conv_end[in]));
-	if (in >= 1 && ctms[in]->s <= ctms[in]->n)
-	    if (strcmp(ctms[0]->word[ctms[0]->s].conv,
-		       ctms[in]->word[ctms[in]->s].conv) != 0){
-		fprintf(scfp,"Error: Conversation mismatches in %s and %s, "
-			"%s and %s respectively",hypname[0],hypname[in],
-			ctms[0]->word[ctms[0]->s].conv,
-			ctms[in]->word[ctms[in]->s].conv);
-		exit(1);
-	    }
+	if (ctms[in]->s > ctms[in]->n)
+	    continue;
+	if (first < 0)
+	    first = in;
+	else if (strcmp(ctms[first]->word[ctms[first]->s].conv,
+			ctms[in]->word[ctms[in]->s].conv) != 0 ||
+		 strcmp(ctms[first]->word[ctms[first]->s].turn,
+			ctms[in]->word[ctms[in]->s].turn) != 0){
+	    fprintf(scfp,"Error: Conversation mismatches in %s and %s, "
+		    "%s %s and %s %s respectively\n",hypname[first],hypname[in],
+		    ctms[first]->word[ctms[first]->s].conv,
+		    ctms[first]->word[ctms[first]->s].turn,
+		    ctms[in]->word[ctms[in]->s].conv,
+		    ctms[in]->word[ctms[in]->s].turn);
+	    exit(1);
+	}
     }
-    if (feedback >= 1) {
+    if (feedback >= 1 && first >= 0) {
 	printf("Working on conversation: %s channel: %s\n",	
-	       ctms[0]->word[ctms[0]->s].conv,
-	       ctms[0]->word[ctms[0]->s].turn);
+	       ctms[first]->word[ctms[first]->s].conv,
+	       ctms[first]->word[ctms[first]->s].turn);
 	for (in=0; in < nctm; in++)
 	    printf("   File: %s  range %d-%d\n",hypname[in],ctms[in]->s,
 		   conv_end[in]);
@@ -277,7 +284,7 @@ int gap_at_times(WTOKE_STR1 *ctm, int end, double *mgap_beg, double *mgap_end, i
     
     /* if there is no more data in this ctm, that answer is YES */
     if (ctm->s > end) {
-	*mgap_s = ctm->s;
+	*mgap_s = end;
 	return(1);
     }
 
diff --git a/src/sclite/net_dp.c b/src/sclite/net_dp.c
index a1758b6..64e9f1d 100644
--- a/src/sclite/net_dp.c
+++ b/src/sclite/net_dp.c
@@ -799,6 +799,7 @@ static void destroy_NET_ALIGN(NET_ALIGN **net_ali){
     char *proc = "destroy_NET_ALIGN";
 
     if (db >= 1) printf("Entering %s:\n",proc);
+    if (*net_ali == (NET_ALIGN *)0) return;  /* nothing was aligned */
 
     /* free the cell array */
     free_2dimarr((*net_ali)->cell,(*net_ali)->arcset_a.max,CELL);
diff --git a/src/sclite/rover.c b/src/sclite/rover.c
index 3bd15f4..5eb34d8 100644
--- a/src/sclite/rover.c
+++ b/src/sclite/rover.c
@@ -150,8 +150,12 @@ void mfalign_ctm_files_v1(char **hypname, int nhyps, int time_align, int case_se
         locate_next_file_channel(ctms, nhyps, files, hypname, eofs, conv_end,
 				 case_sense, feedback);
 
-	mf_sel_str.file = ctms[0]->word[ctms[0]->s].conv;	
-	mf_sel_str.chan = ctms[0]->word[ctms[0]->s].turn;	/* channel */
+	/* a system may have no words left: name the section after another's */
+	for (in=0; in < nhyps && ctms[in]->s > ctms[in]->n; in++)
+	    ;
+	if (in == nhyps) break;
+	mf_sel_str.file = ctms[in]->word[ctms[in]->s].conv;	
+	mf_sel_str.chan = ctms[in]->word[ctms[in]->s].turn;	/* channel */
 	
 	/* loop though the file/channel section, looking for time breaks */
 	while(find_common_silence(ctms, nhyps, conv_end, sil_end, 1.0) == 1){
@@ -179,13 +183,13 @@ void mfalign_ctm_files_v1(char **hypname, int nhyps, int time_align, int case_se
 	    Network_destroy(mfnet);
 
 	    /* skip over this chunk because we're done with it. */
-	    done = 1;
-	    for (in=0; in < nhyps; in++){
+	    for (in=0; in < nhyps; in++)
 		ctms[in]->s = sil_end[in] + 
 		    ((sil_end[in] <= conv_end[in]) ? 1 : 0);
-		if (!eofs[in] || (ctms[in]->s < ctms[in]->n)) done = 0;
-	    }
 	}
+	done = 1;
+	for (in=0; in < nhyps; in++)
+	    if (!eofs[in] || (ctms[in]->s <= ctms[in]->n)) done = 0;
     }
 #ifdef mmm
     if (glob_ties > 0)
-- 
2.43.0


From ffdd3147a2f004f98a5bfd58f041dad515c91e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:24 +0000
Subject: [PATCH 036/152] fix: rover overran its tables of file names with more
 than 50 hypotheses

---
 src/sclite/rover.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sclite/rover.c b/src/sclite/rover.c
index 5eb34d8..f7288e8 100644
--- a/src/sclite/rover.c
+++ b/src/sclite/rover.c
@@ -236,6 +236,7 @@ void proc_args(int argc, char **argv, char *prog, char **hname, char **hfmt, int
 	} else if (strcmp(argv[opt],"-h") == 0){
 	    if (argc < opt + 2) do_exit("Not enough Hyp arguments",prog,1);
 	    if (*(argv[opt+1]) == '-') do_exit("Req'd Hyp File name",prog,1);
+	    if (*nhyps >= MAX_HYPS) do_exit("Too many Hyp Files",prog,1);
 	    hname[*nhyps] = argv[++opt];
 	    if (argc >= opt + 2 && *(argv[opt+1]) != '-') 
 		hfmt[*nhyps]  = argv[++opt];
-- 
2.43.0


From e71b6c911c558a94ffeb2dc36405a586ffd0258d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:24 +0000
Subject: [PATCH 037/152] fix: rover -m avgconf failed where all confidences
 are zero

---
 src/sclite/rover.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sclite/rover.c b/src/sclite/rover.c
index f7288e8..430c1e9 100644
--- a/src/sclite/rover.c
+++ b/src/sclite/rover.c
@@ -434,7 +434,8 @@ void print_linear(NODE *node, void *p){
 	    else if (mf_sel_str->method == METH_AVGCONF){
 		word_score[i] = ( mf_sel_str->alpha * ((double)word_occ[i]/(double)Narc) +
 				  ((1.0-mf_sel_str->alpha) * 
-				   word_conf_sum[i] / total_conf));
+				   ((total_conf != 0.0) ? 
+				    word_conf_sum[i] / total_conf : 0.0)));
 		if (mfdb > 5) {
 		    printf("avgconf word_score[%d] = %f\n",i,word_score[i]);
 		    printf("      %.3f * (%.3f / %.3f) + (1 - %.3f) * (%.3f / %.3f)\n",
-- 
2.43.0


From 3e83995ea4cd7d1e93ce6e8f6e17bf7053a7280a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:24 +0000
Subject: [PATCH 038/152] fix: rover -m maxconfa ignored the number of NULL
 words

---
 src/sclite/rover.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sclite/rover.c b/src/sclite/rover.c
index 430c1e9..966a728 100644
--- a/src/sclite/rover.c
+++ b/src/sclite/rover.c
@@ -416,6 +416,11 @@ void print_linear(NODE *node, void *p){
 	best_w = -1;
 	ties = 0;
 	for (i=0; i<nword; i++){
+	    /* the confidence of NULL words is their share of the systems */
+	    if (mf_sel_str->method == METH_MAXCONFA &&
+		node->out_arcs->arc->net->arc_func.equal(wlist[i],
+						 mf_sel_str->null_alt) == 0)
+		word_max_conf[i] = (double)word_occ[i]/(double)Narc;
 	    if (mf_sel_str->method == METH_METH1 ||	
 		mf_sel_str->method == METH_METH1A || 
 		mf_sel_str->method == METH_ORACLE) {
-- 
2.43.0


From 25620f52a136363f84257d630567404e9d52e784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:30 +0000
Subject: [PATCH 039/152] fix: continuity correction of the binomial's normal
 approximation adds one half

---
 src/sclite/statdist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/statdist.c b/src/sclite/statdist.c
index 3a34163..1d3840b 100644
--- a/src/sclite/statdist.c
+++ b/src/sclite/statdist.c
@@ -786,7 +786,7 @@ double compute_acc_binomial(int R, int n, double p)
       double mean, stdev, zstat, flip;
       mean = n*p;
       stdev = sqrt(n*p*(1.0-p));
-      flip = (double)R * 0.5;
+      flip = (double)R + 0.5;   /* continuity correction */
       zstat = (flip - mean) / stdev;
       sum = normprob((double)fabs(zstat));
       if (zstat < 0.0)  sum = 1.0 - sum;
-- 
2.43.0


From 6e66f72f81380a9690078096cc6e730a6d8fef16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:22 +0000
Subject: [PATCH 040/152] fix: significance tests compare each speaker with
 itself, whatever order the systems list them in

---
 src/sclite/rank.c | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/sclite/rank.c b/src/sclite/rank.c
index 9773ee0..480a4b1 100644
--- a/src/sclite/rank.c
+++ b/src/sclite/rank.c
@@ -18,13 +18,29 @@
 /**********************************************************************/
 void init_RANK_struct_from_SCORES(RANK *rank, SCORES *scor[], int nscor, char *calc_formula)
 {
-    int blk=0,trt,i,n,mlen=0,msclen=0,g;
+    int blk=0,trt,i,n,mlen=0,msclen=0,g,b;
     int c,s,d;
+    int **grp_ind;
+
+    /* The blocks are the speakers all systems have in common, matched */
+    /* by name: the systems may list their speakers in different orders */
+    alloc_2dimZ(grp_ind,MAX(scor[0]->num_grp,1),nscor,int,0);
+    for (g=0; g<scor[0]->num_grp; g++){
+	for (n=0; n<nscor; n++){
+	    for (i=0; i<scor[n]->num_grp; i++)
+		if (strcmp(scor[0]->grp[g].name,scor[n]->grp[i].name) == 0)
+		    break;
+	    if (i == scor[n]->num_grp) break;
+	    grp_ind[blk][n] = i;
+	}
+	if (n == nscor)
+	    blk++;
+	else
+	    fprintf(stderr,"Warning: Speaker %s is in system %s but not system %s\n",
+		    scor[0]->grp[g].name,scor[0]->title,scor[n]->title);
+    }
 
-    /* set it to the max number of speakers for all systems */
     for (n=0; n<nscor; n++){
-	if (blk < scor[n]->num_grp)
-	    blk = scor[n]->num_grp;
 	if (msclen < strlen(scor[n]->title))
 		msclen = strlen(scor[n]->title);
 	for (g=0; g<scor[n]->num_grp; g++)
@@ -36,10 +52,8 @@ void init_RANK_struct_from_SCORES(RANK *rank, SCORES *scor[], int nscor, char *c
     rank->n_blk  = blk;
     rank->n_trt  = trt;
     alloc_2dimarr(rank->blk_name,blk,mlen+1,char);
-    /* copy in only what's available from the first system */
     for (i=0; i<blk; i++)
-	if (i < scor[0]->num_grp)
-	    strcpy(rank->blk_name[i] ,scor[0]->grp[i].name);
+	strcpy(rank->blk_name[i] ,scor[0]->grp[grp_ind[i][0]].name);
     alloc_2dimarr(rank->trt_name,trt,msclen+1,char);
     for (i=0; i<trt; i++){
         strcpy(rank->trt_name[i],scor[i]->title);
@@ -53,20 +67,21 @@ void init_RANK_struct_from_SCORES(RANK *rank, SCORES *scor[], int nscor, char *c
     alloc_singarr(rank->trt_srt_ind ,blk,int);
 
     for (n=0; n<nscor; n++)
-	for (g=0; g<scor[n]->num_grp; g++){
+	for (b=0; b<blk; b++){
+	    g = grp_ind[b][n];
 	    c = scor[n]->grp[g].corr;
 	    s = scor[n]->grp[g].sub; 
 	    d = scor[n]->grp[g].del;
 	    i = scor[n]->grp[g].ins;
             switch (*calc_formula) {
 	      case 'R':
-		rank->pcts[g][n] = pct(c, (c + s + d));
+		rank->pcts[b][n] = pct(c, (c + s + d));
 		break;
 	      case 'E':
-		rank->pcts [g][n] = pct((i + s + d),(c + d + s));
+		rank->pcts [b][n] = pct((i + s + d),(c + d + s));
 		break;
 	      case 'W':
-		rank->pcts[g][n] = 100.0000 - 
+		rank->pcts[b][n] = 100.0000 - 
 		    pct((i + s + d),(c + d + s));
 		break;
 	      default:
@@ -75,6 +90,8 @@ void init_RANK_struct_from_SCORES(RANK *rank, SCORES *scor[], int nscor, char *c
 	    }
 	}
 
+    free_2dimarr(grp_ind,MAX(scor[0]->num_grp,1),int);
+
     if (*calc_formula == 'E' )
         rank_on_pcts(rank,INCREASING);
     else
-- 
2.43.0


From 6c5e900a0cda2a938c50a0eb998a2a484d793668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:55 +0000
Subject: [PATCH 041/152] fix: verbose sign test wrote past the end of its
 title buffer

---
 src/sclite/signtest.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/sclite/signtest.c b/src/sclite/signtest.c
index 7d01e07..00addf8 100644
--- a/src/sclite/signtest.c
+++ b/src/sclite/signtest.c
@@ -189,12 +189,9 @@ int compute_signtest_for_treatment(RANK *rank, int treat1, int treat2, char *blo
         fprintf(fp,pct_format,sum_trt2 /rank->n_blk );
         fprintf(fp,"\n\n");
 
-        sprintf((char *)title_line,"No. Speakers with Positive %s Differences = N(+) = %2d",formula_str,sum_plus);
-        fprintf(fp,"%s\n",center((char *)title_line,paper_width));
-        sprintf((char *)title_line,"No. Speakers with Negative %s Differences = N(-) = %2d",formula_str,sum_minus);
-        fprintf(fp,"%s\n",center((char *)title_line,paper_width));
-        sprintf((char *)title_line,"No. Speakers with No %s Differences = N(0) = %2d",formula_str,sum_equal);
-        fprintf(fp,"%s\n",center((char *)title_line,paper_width));
+        fprintf(fp,"%s\n",center(rsprintf("No. Speakers with Positive %s Differences = N(+) = %2d",formula_str,sum_plus),paper_width));
+        fprintf(fp,"%s\n",center(rsprintf("No. Speakers with Negative %s Differences = N(-) = %2d",formula_str,sum_minus),paper_width));
+        fprintf(fp,"%s\n",center(rsprintf("No. Speakers with No %s Differences = N(0) = %2d",formula_str,sum_equal),paper_width));
         fprintf(fp,"\n\n");
     }
 
-- 
2.43.0


From 49305a10e44e9e5a203d19c1e5b6c8828abac045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:31 +0000
Subject: [PATCH 042/152] fix: matched-pair test of two systems without any
 error read uninitialised memory

---
 src/sclite/statdist.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sclite/statdist.c b/src/sclite/statdist.c
index 1d3840b..e1fd17b 100644
--- a/src/sclite/statdist.c
+++ b/src/sclite/statdist.c
@@ -596,6 +596,11 @@ void calc_mean_var_std_dev_Zstat(int *Z_list, int num_Z, double *mean, double *v
     int i;
     double tmp = 0.0;
 
+    if (num_Z == 0){
+	*mean = *median = *variance = *std_dev = *Z_stat = 0.0;
+	return;
+    }
+
     for (i=0;i<num_Z;i++){
        tmp+=Z_list[i];
     }
-- 
2.43.0


From a7bc23922eadf1ca41cf4761667bd0aff0fc308e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:08 +0000
Subject: [PATCH 043/152] fix: sign test names the system that is better for
 more speakers, not the one with the better mean

---
 src/sclite/signtest.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sclite/signtest.c b/src/sclite/signtest.c
index 00addf8..3b5875f 100644
--- a/src/sclite/signtest.c
+++ b/src/sclite/signtest.c
@@ -219,11 +219,13 @@ int compute_signtest_for_treatment(RANK *rank, int treat1, int treat2, char *blo
 int sign_test_analysis(int num_a, int num_b, int num_z, char *str_a, char *str_b, int str_z, double alpha, int verbose, char *treat1_str, char *treat2_str, int *tptr, int zero_is_best, FILE *fp, double *confidence)
 {
     double test_stat, p=0.5;
-    int i;
+    int i, second_is_best;
 
     num_b += (num_z / 2) + (num_z % 2);
     num_a += (num_z / 2);
     num_z = 0;
+    /* the better system is the one with the better value for more speakers */
+    second_is_best = (num_a > num_b) ? zero_is_best : !zero_is_best;
 
     /* multiplication by 2 means it's a two-tailed test */
     if (num_a != num_b) 
@@ -284,7 +286,7 @@ int sign_test_analysis(int num_a, int num_b, int num_z, char *str_a, char *str_b
         if (test_stat < alpha){            
             fprintf(fp,"is REJECTED\n");
             fprintf(fp,"        in favor of the Alternate Hypothesis.  Further, %s is the\n",
-                   (zero_is_best) ? treat2_str : treat1_str);
+                   (second_is_best) ? treat2_str : treat1_str);
             fprintf(fp,"        better System.\n");
         } else{
             fprintf(fp,"is ACCEPTED\n");
@@ -293,8 +295,8 @@ int sign_test_analysis(int num_a, int num_b, int num_z, char *str_a, char *str_b
         form_feed(fp);
     }
     if (test_stat < alpha){
-        if (0) fprintf(fp,"Returning Result %d\n",TEST_DIFF * ((zero_is_best) ? 1 : -1));
-        return(TEST_DIFF * ((zero_is_best) ? 1 : -1));
+        if (0) fprintf(fp,"Returning Result %d\n",TEST_DIFF * ((second_is_best) ? 1 : -1));
+        return(TEST_DIFF * ((second_is_best) ? 1 : -1));
       }
     return(NO_DIFF);
 }
-- 
2.43.0


From 54e4798ae01fde97d0f950651617a303e44eb3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:55 +0000
Subject: [PATCH 044/152] fix: Wilcoxon test names the system with the better
 rank sum

---
 src/sclite/wilcoxon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/wilcoxon.c b/src/sclite/wilcoxon.c
index ba552d0..ed4cb34 100644
--- a/src/sclite/wilcoxon.c
+++ b/src/sclite/wilcoxon.c
@@ -265,7 +265,7 @@ static int wilcoxon_test_analysis(int num_a, int num_b, double sum_a, double sum
       else
           W = sum_b; 
       n = num_a + num_b;
-      better = (num_a < num_b) ? 'b' : 'a';
+      better = (sum_a < sum_b) ? 'b' : 'a';
       if (zero_is_best)  /* make an adjustment for direction of PCTS*/
           better = (better == 'a') ? 'b' : 'a';
       E = ((double)n * (double)(n+1) / 4.0);
-- 
2.43.0


From f776a43f0a915d8618ebc514a242757e1a512f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:24 +0000
Subject: [PATCH 045/152] fix: analysis of variance compares systems pairwise
 only after finding a difference

---
 src/sclite/anovar.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sclite/anovar.c b/src/sclite/anovar.c
index f7f384d..80f47ca 100644
--- a/src/sclite/anovar.c
+++ b/src/sclite/anovar.c
@@ -87,12 +87,13 @@ void compute_anovar(RANK *rank, int verbose, int report, int ***out_sys_winner,
     /* if at least one difference, do multiple comparison */
     if (analyze_rank_sum(rank,rnk_trt(rank),rnk_blks(rank),
 			 sum_trt_rank,
-                         FOR_TREATMENTS,verbose,fp) == TEST_DIFF)
+                         FOR_TREATMENTS,verbose,fp) == TEST_DIFF){
 	clear_2dim(trt_winner,rank->n_trt,rank->n_trt,NO_DIFF);
         do_multi_comp_for_anovar(rnk_trt(rank),rnk_blks(rank),
                                  rnk_t_name(rank),sum_trt_rank,
                                  ovr_t_rank(rank),RANK_TITLEA,
                                  srt_t_rank(rank),trt_winner,verbose,fp);
+    }
     if (verbose) form_feed(fp);
 
     if (verbose){
@@ -105,12 +106,13 @@ void compute_anovar(RANK *rank, int verbose, int report, int ***out_sys_winner,
     }
     /* if at least one difference, do multiple comparison */
     if (analyze_rank_sum(rank,rnk_blks(rank),rnk_trt(rank),sum_blk_rank,
-                         FOR_BLOCKS,verbose,fp) == TEST_DIFF)
+                         FOR_BLOCKS,verbose,fp) == TEST_DIFF){
 	clear_2dim(blk_winner,rank->n_blk,rank->n_blk,NO_DIFF);
         do_multi_comp_for_anovar(rnk_blks(rank),rnk_trt(rank),
                                  rnk_b_name(rank),sum_blk_rank,
                                  ovr_b_rank(rank),RANK_TITLEB,
                                  srt_b_rank(rank),blk_winner, verbose,fp);
+    }
     if (verbose && (fp == stdout)) form_feed(fp);
     free_2dimarr(blk_winner,rank->n_blk,int); 
     free_singarr(sum_trt_rank,double);
-- 
2.43.0


From 5707c3d304b376a0a3d39132d6ca6ccabd3f2114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:24 +0000
Subject: [PATCH 046/152] fix: multiple comparison threshold of the analysis of
 variance uses t(t+1)

---
 src/sclite/anovar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/anovar.c b/src/sclite/anovar.c
index 80f47ca..e874dbf 100644
--- a/src/sclite/anovar.c
+++ b/src/sclite/anovar.c
@@ -381,7 +381,7 @@ static void calc_stat_ranks(int trt_num, int blk_num, int **stat_sum, double *su
 
     /* calculate the comparison value for the confidence interval */
     Zcomp_value = calc_comp_value(trt_num,blk_num);
-    sqr_root = sqrt(blk_num * trt_num * (trt_num - 1) / 6.000000);
+    sqr_root = sqrt(blk_num * trt_num * (trt_num + 1) / 6.000000);
     compare_value = (double)Zcomp_value * (double)sqr_root;
 
     /* go through the comparison and build an array to rank */
-- 
2.43.0


From 05c0f32ea610c6bcfada65dbd4cab49f64b83cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:46 +0000
Subject: [PATCH 047/152] fix: ties adjustment of the analysis of variance by
 speakers counts all speakers

---
 src/sclite/anovar.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sclite/anovar.c b/src/sclite/anovar.c
index e874dbf..20a14ae 100644
--- a/src/sclite/anovar.c
+++ b/src/sclite/anovar.c
@@ -331,7 +331,7 @@ static double calc_adjust_for_blks(RANK *rank)
             sort_arr[sort_num] = Vrnk_b_rank(rank,j,i);
             sort_count[sort_num]++;
 	}
-        for (j=0;j<rnk_trt(rank); j++)
+        for (j=0;j<rnk_blks(rank); j++)
             if (sort_count[j] > 0)
                 sum_T += (sort_count[j] * sort_count[j] * sort_count[j])
                            - sort_count[j];
-- 
2.43.0


From 796b051a620cac34d7b13f3e1e009ce002c548d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:28 +0000
Subject: [PATCH 048/152] fix: ranks of values that differ by rounding errors
 only are tied

---
 src/sclite/order.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sclite/order.c b/src/sclite/order.c
index c308a19..8dd6293 100644
--- a/src/sclite/order.c
+++ b/src/sclite/order.c
@@ -248,6 +248,9 @@ void rank_int_arr(int *arr, int num, int *ptr_arr, double *rank_arr, int order)
 /*  *** for comments, look up at sort_int_arr                         */
 /*                                                                    */
 /**********************************************************************/
+/* values that differ by no more than their rounding errors are ties */
+#define TIED(_a,_b)  (fabs((_a) - (_b)) < 1e-6)
+
 void rank_double_arr(double *arr, int num, int *ptr_arr, double *rank_arr, int order)
 {
     int i, j, tmp, count;
@@ -255,10 +258,10 @@ void rank_double_arr(double *arr, int num, int *ptr_arr, double *rank_arr, int o
     sort_double_arr(arr, num, ptr_arr, order);
 
     for (j=0;j<num;j++){
-        if ((j<num-1) && (arr[ptr_arr[j]] == arr[ptr_arr[j+1]])){
+        if ((j<num-1) && TIED(arr[ptr_arr[j]],arr[ptr_arr[j+1]])){
             count = j;
             while((count < num-1) &&
-                  (arr[ptr_arr[count]] == arr[ptr_arr[count+1]])){
+                  TIED(arr[ptr_arr[count]],arr[ptr_arr[count+1]])){
                 count++;
 	    }
             tmp = 0;
-- 
2.43.0


From 3b7d387e876f40c4d6d4dd13c3e6142703b744d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:14 +0000
Subject: [PATCH 049/152] fix: asclite keeps the words of an optional end and
 lists a token once

---
 src/asclite/core/segment.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/asclite/core/segment.cpp b/src/asclite/core/segment.cpp
index f533389..90ddcdc 100644
--- a/src/asclite/core/segment.cpp
+++ b/src/asclite/core/segment.cpp
@@ -227,8 +227,12 @@ vector<Token*> Segment::ToTopologicalOrderedStruct()
 	for(size_t i = 0 ; i < f_token->GetNbOfNextTokens() ; ++i)
     {
         Token* token = f_token->GetNextToken(i);
-        res.push_back(token);
-        ToTopologicalOrderedStruct(token, &res);
+        
+        if (find(res.begin(), res.end(), token) == res.end())
+        {
+            res.push_back(token);
+            ToTopologicalOrderedStruct(token, &res);
+        }
     }
 	
     return res;
@@ -239,17 +243,15 @@ vector<Token*> Segment::ToTopologicalOrderedStruct()
  */
 void Segment::ToTopologicalOrderedStruct(Token* start, vector<Token*>* doneNode)
 {
-    if (!isLastToken(start))
+    for(size_t i = 0 ; i < start->GetNbOfNextTokens() ; ++i)
     {
-        for(size_t i = 0 ; i < start->GetNbOfNextTokens() ; ++i)
+        Token* token = start->GetNextToken(i);
+        
+        // the tokens following a last token may be in this segment as well (end of the segment optional)
+        if ( (token->GetParentSegment() == this) && (find(doneNode->begin(), doneNode->end(), token) == doneNode->end()) )
         {
-            Token* token = start->GetNextToken(i);
-            
-            if (find(doneNode->begin(), doneNode->end(), token) == doneNode->end())
-            {
-                doneNode->push_back(token);
-                ToTopologicalOrderedStruct(token, doneNode);
-            }
+            doneNode->push_back(token);
+            ToTopologicalOrderedStruct(token, doneNode);
         }
     }
 }
-- 
2.43.0


From e13cf74224e38ac3e58a4038f364c7ca29eeb630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:14 +0000
Subject: [PATCH 050/152] fix: asclite ctm words after <ALT_END> belong to
 their own segment; alternation ending the file is complete

---
 src/asclite/core/ctm_inputparser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/asclite/core/ctm_inputparser.cpp b/src/asclite/core/ctm_inputparser.cpp
index 63292a4..ac5bf0a 100644
--- a/src/asclite/core/ctm_inputparser.cpp
+++ b/src/asclite/core/ctm_inputparser.cpp
@@ -224,7 +224,7 @@ SpeechSet* CTMInputParser::loadFile(const string& name)
                     Segment* seg = Segment::CreateWithDuration(start_ms, dur_ms, speech);
                     seg->SetSource(string(f_file));
                     seg->SetChannel(string(channel));
-                    Token* tok = BuildToken(start_ms, dur_ms, string(text), alt_seg);
+                    Token* tok = BuildToken(start_ms, dur_ms, string(text), seg);
                     seg->AddFirstToken(tok);
                     seg->AddLastToken(tok);
                     alt_seg->AddLastToken(prec_alt_tok);
@@ -275,6 +275,10 @@ SpeechSet* CTMInputParser::loadFile(const string& name)
         
 		++line_nb;
 	}
+	
+	// The file ends with an alternation: its last alternative is not attached to anything
+	if(isAltEnd && alt_seg && prec_alt_tok)
+		alt_seg->AddLastToken(prec_alt_tok);
     
 	LOG_INFO(logger, "loading of file '" + name + "' done");
 	file.close();
-- 
2.43.0


From 59779094dce0e8df0c700535652d92ce0a823016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:15 +0000
Subject: [PATCH 051/152] fix: asclite allows to leave out everything of an
 optional segment or alternative

---
 src/asclite/core/graph.cpp                 | 18 ++++++++++++--
 src/asclite/core/linestyle_inputparser.cpp | 23 ++++++++----------
 src/asclite/core/segment.cpp               |  1 +
 src/asclite/core/segment.h                 | 12 ++++++++++
 src/asclite/core/stm_inputparser.cpp       | 28 ++++++++++++----------
 5 files changed, 54 insertions(+), 28 deletions(-)

diff --git a/src/asclite/core/graph.cpp b/src/asclite/core/graph.cpp
index 4b153b3..20b84bf 100644
--- a/src/asclite/core/graph.cpp
+++ b/src/asclite/core/graph.cpp
@@ -105,7 +105,8 @@ Graph::Graph(SegmentsGroup* _segmentsGroup, SpeakerMatch* _pSpeakerMatch, const
 				m_TabMapTokenIndex[i][curToken] = k;
 				size_t prcs = 0;
 				
-				while( (prcs < (temp_segs.size()-1)) && (temp_segs[prcs]->isEmpty()) )
+				// The segments which can be left out are skipped as well as the empty ones
+				while( (prcs < (temp_segs.size()-1)) && !temp_segs[prcs]->isFirstToken(curToken) && (temp_segs[prcs]->isEmpty() || temp_segs[prcs]->isTraversable()) )
 					++prcs;
 				
 				if(temp_segs[prcs]->isFirstToken(curToken))
@@ -113,13 +114,26 @@ Graph::Graph(SegmentsGroup* _segmentsGroup, SpeakerMatch* _pSpeakerMatch, const
 				
 				prcs = temp_segs.size()-1;
 				
-				while( (prcs > 0) && (temp_segs[prcs]->isEmpty()) )
+				while( (prcs > 0) && !temp_segs[prcs]->isLastToken(curToken) && (temp_segs[prcs]->isEmpty() || temp_segs[prcs]->isTraversable()) )
 					--prcs;
 				
 				if(temp_segs[prcs]->isLastToken(curToken))
                     m_TabLastTokens[i].push_front(curToken);
 			}
 		}
+		
+		// No token at all has to be used
+		bool bTraversable = !m_TabLastTokens[i].empty();
+		
+		for(k=0; k<temp_segs.size(); ++k)
+			if(!temp_segs[k]->isEmpty() && !temp_segs[k]->isTraversable())
+				bTraversable = false;
+		
+		if(bTraversable)
+		{
+			m_TabMapTokenIndex[i][NULL] = 0;
+			m_TabLastTokens[i].push_front(NULL);
+		}
 	}
 	
 	SetGraphOptimization();
diff --git a/src/asclite/core/linestyle_inputparser.cpp b/src/asclite/core/linestyle_inputparser.cpp
index 9d621bd..b5228d5 100644
--- a/src/asclite/core/linestyle_inputparser.cpp
+++ b/src/asclite/core/linestyle_inputparser.cpp
@@ -42,6 +42,7 @@ Segment* LineStyleInputParser::ParseWords(const string& source, const string& ch
     for (size_t i=0 ; i < words->GetNbEndToken() ; ++i)
         seg->AddLastToken(words->GetEndToken(i));
 	
+	seg->SetTraversable(words->IsTraversable());
 	delete words;
 	
     return seg;
@@ -72,6 +73,7 @@ Segment* LineStyleInputParser::ParseWordsEx(const string& source, const string&
 	for (size_t i=0 ; i < words->GetNbEndToken() ; ++i)
 		seg->AddLastToken(words->GetEndToken(i));
 	
+	seg->SetTraversable(words->IsTraversable());
 	delete words;
 	
 //	if(bOptionallyDeletable)
@@ -151,6 +153,7 @@ LineStyleInputParser::VirtualSegment* LineStyleInputParser::ParseWords(Segment*
     {
         vector<string> t_words = TokeniseWords(orStatements[0]);
         bool isFirstWord = true;
+        bool allTraversable = true;
 		LineStyleInputParser::VirtualSegment* prec_token = NULL;
 		
 		for (size_t i=0; i < t_words.size(); ++i)
@@ -161,13 +164,6 @@ LineStyleInputParser::VirtualSegment* LineStyleInputParser::ParseWords(Segment*
 			if (t_words[i].find(string(" ")) != string::npos)
             {
                 toks = ParseWords(seg, t_words[i], bOptionallyDeletable);
-				
-                if (toks->IsTraversable())
-                {
-                    //only set the containing structur as traversable if it contain one token
-                    if (t_words.size() == 1)
-                        out_struct->SetTraversable(true);
-                }
             }
             else
             {
@@ -217,12 +213,8 @@ LineStyleInputParser::VirtualSegment* LineStyleInputParser::ParseWords(Segment*
                 }
                 else
                 {
-                    //if the empty token is alone then the virtual segment is traversable
-                    //else just skip it
-                    if (t_words.size() == 1)
-                        out_struct->SetTraversable(true);
-                    else
-                        skipToken = true;
+                    //an empty token adds nothing, just skip it
+                    skipToken = true;
                 }
             }
       
@@ -244,6 +236,10 @@ LineStyleInputParser::VirtualSegment* LineStyleInputParser::ParseWords(Segment*
                     cout << t_words[i] << " >>not first" << endl;
                 }
                 */
+                //The containing structure is traversable if everything in it is
+                if (!toks->IsTraversable())
+                    allTraversable = false;
+
                 //Define if the next word might be a first token also
                 if (!toks->IsTraversable() && isFirstWord) 
                     isFirstWord = false;
@@ -282,6 +278,7 @@ LineStyleInputParser::VirtualSegment* LineStyleInputParser::ParseWords(Segment*
 		if(prec_token && (prec_token != out_struct))
             delete prec_token;
 		
+		out_struct->SetTraversable(allTraversable);
 		t_words.clear();
     }
 	
diff --git a/src/asclite/core/segment.cpp b/src/asclite/core/segment.cpp
index 90ddcdc..9bf3f33 100644
--- a/src/asclite/core/segment.cpp
+++ b/src/asclite/core/segment.cpp
@@ -120,6 +120,7 @@ Segment::Segment()
     f_token = Token::CreateWithEndTime(0, 0, this);
 	l_token = Token::CreateWithEndTime(0, 0, this);
 	ignoreSegmentInScoring = false;
+	traversable = false;
 }
 
 // class destructor
diff --git a/src/asclite/core/segment.h b/src/asclite/core/segment.h
index fc43bf7..3bc5ffe 100644
--- a/src/asclite/core/segment.h
+++ b/src/asclite/core/segment.h
@@ -138,6 +138,14 @@ class Segment : public TimedObject
 		 * Return true if no token are into this segment
 		 */
 		bool isEmpty() { return (f_token->GetNbOfNextTokens() == 0 || l_token->GetNbOfNextTokens() == 0); }
+		/**
+		 * Say if all the tokens of this segment can be left out, e.g. "{ a / @ }"
+		 */
+		bool isTraversable() { return traversable; }
+		/**
+		 * Set the segment as (not) traversable
+		 */
+		void SetTraversable(const bool& _trav) { traversable = _trav; }
 		/**
 		 * Say if this segment should be exclude from scoring
 		 */
@@ -222,6 +230,10 @@ class Segment : public TimedObject
 		 * Define the scoring state of this segment
 		 */
 		bool ignoreSegmentInScoring;
+		/**
+		 * All the tokens of this segment can be left out
+		 */
+		bool traversable;
 		/**
 		 * Return the parent speech object
 		 */
diff --git a/src/asclite/core/stm_inputparser.cpp b/src/asclite/core/stm_inputparser.cpp
index 2faab04..45e7ba7 100644
--- a/src/asclite/core/stm_inputparser.cpp
+++ b/src/asclite/core/stm_inputparser.cpp
@@ -262,23 +262,25 @@ SpeechSet* STMInputParser::loadFile(const string& name)
 		
 		if(nbrseg > 1)
 		{			
-			Segment* prevSeg = NULL;
-			Segment* currSeg = NULL;
-			
-			for(size_t ii=0; ii<nbrseg; ++ii)
+			for(size_t ii=1; ii<nbrseg; ++ii)
 			{
-				Segment* segalpha = _speech->GetSegment(ii);
-				
-				if( (segalpha->GetNumberOfFirstToken() != 0) && (segalpha->GetNumberOfLastToken() != 0) )
-					currSeg = segalpha;
+				Segment* currSeg = _speech->GetSegment(ii);
 				
-				if(prevSeg && currSeg)
-					Attach(prevSeg, currSeg);
+				if(currSeg->isEmpty())
+					continue;
 				
-				if(currSeg)
+				// the previous segments, up to the first one that can't be left out
+				for(size_t jj=ii; jj>0; --jj)
 				{
-					prevSeg = currSeg;
-					currSeg = NULL;
+					Segment* prevSeg = _speech->GetSegment(jj-1);
+					
+					if(prevSeg->isEmpty())
+						continue;
+					
+					Attach(prevSeg, currSeg);
+					
+					if(!prevSeg->isTraversable())
+						break;
 				}
 			}
 		}
-- 
2.43.0


From e8f2c27ee70dec89d86acc16ede8e4ba2977e9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:32 +0000
Subject: [PATCH 052/152] fix: asclite -D both applies to the hypothesis words
 too

---
 src/asclite/core/levenshtein.cpp | 11 ++++-------
 src/asclite/core/stt_scorer.cpp  | 10 ++++------
 2 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/asclite/core/levenshtein.cpp b/src/asclite/core/levenshtein.cpp
index a3e9459..099058a 100644
--- a/src/asclite/core/levenshtein.cpp
+++ b/src/asclite/core/levenshtein.cpp
@@ -53,16 +53,13 @@ void Levenshtein::SetSegments(SegmentsGroup* segmentsGroup, SpeakerMatch* pSpeak
     {
         opt_ref = true;
     }
-    else if (string("both").compare(opt_case) == 0 || string("hyp").compare(opt_case) == 0)
+    
+    if (string("both").compare(opt_case) == 0 || string("hyp").compare(opt_case) == 0)
     {
         opt_hyp = true;
     }
-    else if (string("none").compare(opt_case) == 0)
-    {
-        opt_ref = false;
-        opt_hyp = false;
-    }
-    else
+    
+    if (!opt_ref && !opt_hyp && string("none").compare(opt_case) != 0)
     {
         LOG_WARN(logger, "The <align.optionally> property has an unrecognized value: '"+opt_case+"'");
     }
diff --git a/src/asclite/core/stt_scorer.cpp b/src/asclite/core/stt_scorer.cpp
index 5a7bacd..4094e4c 100644
--- a/src/asclite/core/stt_scorer.cpp
+++ b/src/asclite/core/stt_scorer.cpp
@@ -48,15 +48,13 @@ void STTScorer::Score(Alignment* alignment, SpeakerMatch* speakerMatch)
     {
         opt_ref = true;
     }
-    else if ("both" == opt_case || "hyp" == opt_case)
+    
+    if ("both" == opt_case || "hyp" == opt_case)
     {
         opt_hyp = true;
     }
-    else if ("none" == opt_case)
-    {
-        // do nothing
-    }
-    else
+    
+    if (!opt_ref && !opt_hyp && "none" != opt_case)
     {
         LOG_WARN(logger, "The <align.optionally> property has an unrecognized value: '"+opt_case+"'");
     }
-- 
2.43.0


From 843b9df967f38a7e0d87ec69e8fdecedd13af464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:32 +0000
Subject: [PATCH 053/152] fix: asclite: two beginning fragments match only if
 one is a prefix of the other

---
 src/asclite/core/token.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asclite/core/token.cpp b/src/asclite/core/token.cpp
index 5ad10e7..ff01cad 100644
--- a/src/asclite/core/token.cpp
+++ b/src/asclite/core/token.cpp
@@ -292,7 +292,7 @@ bool Token::IsEquivalentTo(Token* token)
 			} 
             else if (otherFrag == BEGIN_FRAGMENT) 
             {
-				 return ((tok1.find(tok2, 0) != string::npos) || (tok2.find(tok1, 0) != string::npos));
+				 return ((tok1.find(tok2, 0) == 0) || (tok2.find(tok1, 0) == 0));
 			}
             else 
             {
-- 
2.43.0


From 239b06a15a9c3a9ea688b4a0a656447a1db5086f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:00:26 +0000
Subject: [PATCH 054/152] fix: asclite trn: utterance missing in the hypothesis
 is deleted words, not a crash

---
 src/asclite/core/trntrn_segmentor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asclite/core/trntrn_segmentor.cpp b/src/asclite/core/trntrn_segmentor.cpp
index 0991331..2fe6ada 100644
--- a/src/asclite/core/trntrn_segmentor.cpp
+++ b/src/asclite/core/trntrn_segmentor.cpp
@@ -52,7 +52,7 @@ SegmentsGroup* TRNTRNSegmentor::Next()
     SegmentsGroup* segGroup = new SegmentsGroup();
     bool foundIt = false;
   
-    for (size_t j=0 ; refs->GetNumberOfSpeech() ; ++j)
+    for (size_t j=0 ; j < refs->GetNumberOfSpeech() ; ++j)
     {
         for (size_t i=0 ; i < refs->GetSpeech(j)->NbOfSegments() ; ++i)
         {
@@ -74,7 +74,7 @@ SegmentsGroup* TRNTRNSegmentor::Next()
         }
     }
     
-    for (size_t j=0 ; hyps->GetNumberOfSpeech(); ++j)
+    for (size_t j=0 ; j < hyps->GetNumberOfSpeech() ; ++j)
     {
         for (size_t i=0 ; i < hyps->GetSpeech(j)->NbOfSegments() ; ++i)
         {
-- 
2.43.0


From 83f09e1822252b9fbae8d6db2944f7f115286305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:33 +0000
Subject: [PATCH 055/152] fix: asclite scores several systems in one run

---
 src/asclite/core/alignedsegment.cpp         | 23 +++++++++++----------
 src/asclite/core/alignedsegment.h           | 11 +++-------
 src/asclite/core/ctmstmrttm_segmentor.cpp   | 23 +++++++++------------
 src/asclite/core/rawsys_reportgenerator.cpp | 12 +++++++++++
 src/asclite/core/sgml_reportgenerator.cpp   | 19 +++++++++++------
 src/asclite/core/stt_scorer.cpp             |  5 +++++
 src/asclite/core/trntrn_segmentor.cpp       | 19 +++++++----------
 7 files changed, 63 insertions(+), 49 deletions(-)

diff --git a/src/asclite/core/alignedsegment.cpp b/src/asclite/core/alignedsegment.cpp
index e061af4..4144cfb 100644
--- a/src/asclite/core/alignedsegment.cpp
+++ b/src/asclite/core/alignedsegment.cpp
@@ -24,7 +24,7 @@
 AlignedSegment::AlignedSegment(Segment* referenceSegment)
 {
     m_tokenAlignments = vector< TokenAlignment* >();
-    m_refToAlignments = map<Token*, TokenAlignment*>();
+    m_refToAlignments = map< pair<Token*, string>, TokenAlignment* >();
     m_referenceSegment = referenceSegment;
 }
 
@@ -56,23 +56,24 @@ string AlignedSegment::ToString()
 	return result;
 }
 
-TokenAlignment* AlignedSegment::GetTokenAlignmentFor(Token* reference, const bool& create)
+TokenAlignment* AlignedSegment::GetTokenAlignmentFor(Token* reference, const string& hypKey)
 {	
-	TokenAlignment* ta = m_refToAlignments[reference];
-	
-	// if we don't want to create a new TA or one already exists for reference, return it
-	if(!create || ta != NULL)
-    {
-		return ta;
+	if(reference != NULL)
+	{
+		// one already exists for this reference and this system, return it
+		TokenAlignment* existing = m_refToAlignments[make_pair(reference, hypKey)];
+		
+		if(existing != NULL)
+			return existing;
 	}
 	
-	ta = new TokenAlignment(reference);		
+	TokenAlignment* ta = new TokenAlignment(reference);		
 	m_tokenAlignments.push_back(ta);
 	
 	// don't add ta to the map if it's not associated to a non-NULL reference
 	if(reference != NULL)
     {
-		m_refToAlignments[reference] = ta;
+		m_refToAlignments[make_pair(reference, hypKey)] = ta;
 	}
 	
 	return ta;
@@ -85,5 +86,5 @@ int AlignedSegment::AddTokenAlignment(Token* reference, const string& hypKey, To
 		return -1;
 	}
 	
-	return GetTokenAlignmentFor(reference, true)->AddAlignmentFor(hypKey, hypothesis);
+	return GetTokenAlignmentFor(reference, hypKey)->AddAlignmentFor(hypKey, hypothesis);
 }
diff --git a/src/asclite/core/alignedsegment.h b/src/asclite/core/alignedsegment.h
index 08a9350..1b77172 100644
--- a/src/asclite/core/alignedsegment.h
+++ b/src/asclite/core/alignedsegment.h
@@ -61,12 +61,6 @@ class AlignedSegment
          */
         int AddTokenAlignment(Token* reference, const string& hypKey, Token* hypothesis);
 
-        /** Retrieves the TokenAlignment associated to the specified reference Token
-         * or NULL if no such TokenAlignment exists.
-         * @param reference the reference Token which associated TokenAlignment is to be retrieved
-         */
-        TokenAlignment* GetTokenAlignmentFor(Token* reference) { return GetTokenAlignmentFor(reference, false); }
-
         /** Returns a string representation of this AlignedSegment */
         string ToString();
 		
@@ -77,10 +71,11 @@ class AlignedSegment
     private:
         vector< TokenAlignment* > m_tokenAlignments;
         Segment* m_referenceSegment;
-        map< Token*, TokenAlignment* > m_refToAlignments;
+        map< pair<Token*, string>, TokenAlignment* > m_refToAlignments;
         ulint m_SegGrpID;
         
-        TokenAlignment* GetTokenAlignmentFor(Token* ref, const bool& create);
+        /** TokenAlignment of the reference Token for this system, created if needed */
+        TokenAlignment* GetTokenAlignmentFor(Token* ref, const string& hypKey);
 };
 
 #endif
diff --git a/src/asclite/core/ctmstmrttm_segmentor.cpp b/src/asclite/core/ctmstmrttm_segmentor.cpp
index 0c67c79..7cfb82c 100644
--- a/src/asclite/core/ctmstmrttm_segmentor.cpp
+++ b/src/asclite/core/ctmstmrttm_segmentor.cpp
@@ -46,21 +46,18 @@ CTMSTMRTTMSegmentor::~CTMSTMRTTMSegmentor()
 
 void CTMSTMRTTMSegmentor::Reset(SpeechSet* references, SpeechSet* hypothesis)
 {
-    if (references != refs)
+    refs = references;
+    //init the source and Channel list, they are consumed by each pass
+    sourceList.clear();
+    channelList.clear();
+
+    for (size_t i=0 ; i < references->GetNumberOfSpeech(); ++i)
     {
-        refs = references;
-        //init the source and Channel list
-        sourceList.clear();
-        channelList.clear();
-    
-        for (size_t i=0 ; i < references->GetNumberOfSpeech(); ++i)
+        for (size_t j=0 ; j < references->GetSpeech(i)->NbOfSegments() ; ++j)
         {
-            for (size_t j=0 ; j < references->GetSpeech(i)->NbOfSegments() ; ++j)
-            {
-                Segment* seg = references->GetSpeech(i)->GetSegment(j);
-                sourceList.insert(seg->GetSource());
-                channelList[seg->GetSource()].insert(seg->GetChannel());
-            }
+            Segment* seg = references->GetSpeech(i)->GetSegment(j);
+            sourceList.insert(seg->GetSource());
+            channelList[seg->GetSource()].insert(seg->GetChannel());
         }
     }
 	
diff --git a/src/asclite/core/rawsys_reportgenerator.cpp b/src/asclite/core/rawsys_reportgenerator.cpp
index 5ee7873..219acc5 100644
--- a/src/asclite/core/rawsys_reportgenerator.cpp
+++ b/src/asclite/core/rawsys_reportgenerator.cpp
@@ -238,6 +238,13 @@ void RAWSYSReportGenerator::GenerateSystem(Alignment* alignment, const string& s
 	bool errorinsegment;
 	string speakerId;
 	
+	// Forget the previous system
+	for(i=m_MapDatas.begin(); i!=m_MapDatas.end(); ++i)
+		delete i->second;
+	
+	m_MapDatas.clear();
+	m_SumTotConfidenceCorrect = m_SumTotConfidenceIncorrect = 0.0;
+	
 	aAlignedSpeechs = alignment->AlignedSpeeches();
 	
 	while(aAlignedSpeechs->Current(&aAlignedSpeechCurrent))
@@ -257,6 +264,11 @@ void RAWSYSReportGenerator::GenerateSystem(Alignment* alignment, const string& s
 			{
 				aTokenAlignmentCurrent = aAlignedSegmentCurrent->GetTokenAlignmentAt(j);
 				aAlignmentEvaluation = aTokenAlignmentCurrent->GetAlignmentFor(systm);
+				
+				// token alignment of another system
+				if(aAlignmentEvaluation == NULL)
+					continue;
+				
 				aAlignmentResult = aAlignmentEvaluation->GetResult();
 				aToken = aAlignmentEvaluation->GetToken();
 				
diff --git a/src/asclite/core/sgml_reportgenerator.cpp b/src/asclite/core/sgml_reportgenerator.cpp
index bedd4f7..69aeecd 100644
--- a/src/asclite/core/sgml_reportgenerator.cpp
+++ b/src/asclite/core/sgml_reportgenerator.cpp
@@ -102,9 +102,9 @@ void SGMLReportGenerator::GenerateSystem(Alignment* alignment, const string& sys
 		{
 			if(!fileNamesSet)
             {
-                if (aAlignedSegmentCurrent->GetTokenAlignmentCount() != 0)
+                for (size_t i=0 ; !fileNamesSet && (i < aAlignedSegmentCurrent->GetTokenAlignmentCount()) ; ++i)
                 {
-                    Token* token = aAlignedSegmentCurrent->GetTokenAlignmentAt(0)->GetAlignmentFor(systm)->GetToken();
+                    Token* token = aAlignedSegmentCurrent->GetTokenAlignmentAt(i)->GetTokenFor(systm);
 				  
                     if(token != NULL) 
                     {
@@ -230,7 +230,14 @@ void SGMLReportGenerator::GeneratePath(AlignedSegment* alignedSegment, const str
 	Segment* refSegment = alignedSegment->GetReferenceSegment();
 	output << "<PATH";
 	output << " id=\"" << refSegment->GetId() << "\"";
-	output << " word_cnt=\"" << alignedSegment->GetTokenAlignmentCount() << "\"";
+	vector<TokenAlignment*> tokenAligns;
+	
+	// the token alignments of this system
+	for(size_t i = 0; i < alignedSegment->GetTokenAlignmentCount(); ++i)
+		if(alignedSegment->GetTokenAlignmentAt(i)->GetAlignmentFor(systm) != NULL)
+			tokenAligns.push_back(alignedSegment->GetTokenAlignmentAt(i));
+	
+	output << " word_cnt=\"" << tokenAligns.size() << "\"";
 	
 	if(refSegment->GetLabel() != "")
 		output << " labels=\"" << refSegment->GetLabel() << "\"";
@@ -257,16 +264,16 @@ void SGMLReportGenerator::GeneratePath(AlignedSegment* alignedSegment, const str
 	
 	output << ">" << endl;
 	
-	size_t tokenNumber = alignedSegment->GetTokenAlignmentCount();
+	size_t tokenNumber = tokenAligns.size();
 	
 	if (tokenNumber > 0)
 	{
-		GenerateTokenAlignment(alignedSegment->GetTokenAlignmentAt(0), systm, output);
+		GenerateTokenAlignment(tokenAligns[0], systm, output);
 		
 		for(size_t i = 1; i < tokenNumber; i++)
 		{
 			output << ":";
-			GenerateTokenAlignment(alignedSegment->GetTokenAlignmentAt(i), systm, output);
+			GenerateTokenAlignment(tokenAligns[i], systm, output);
 		}
 	}
 	
diff --git a/src/asclite/core/stt_scorer.cpp b/src/asclite/core/stt_scorer.cpp
index 4094e4c..5d5ff3b 100644
--- a/src/asclite/core/stt_scorer.cpp
+++ b/src/asclite/core/stt_scorer.cpp
@@ -74,6 +74,11 @@ void STTScorer::Score(Alignment* alignment, SpeakerMatch* speakerMatch)
 				{
 					string hyp_key = alignment->GetSystem(i);
 					TokenAlignment::AlignmentEvaluation* ae = tokenAlign->GetAlignmentFor(hyp_key);
+					
+					// token alignment of another system
+					if (ae == NULL)
+						continue;
+					
 					Token* hyp = ae->GetToken();
 					
 					if (ref == NULL)
diff --git a/src/asclite/core/trntrn_segmentor.cpp b/src/asclite/core/trntrn_segmentor.cpp
index 2fe6ada..e0f6c71 100644
--- a/src/asclite/core/trntrn_segmentor.cpp
+++ b/src/asclite/core/trntrn_segmentor.cpp
@@ -25,19 +25,16 @@ Logger* TRNTRNSegmentor::logger = Logger::getLogger();
 
 void TRNTRNSegmentor::Reset(SpeechSet* references, SpeechSet* hypothesis)
 {
-    if (references != refs)
+    refs = references;
+    //init the uterance id list, it is consumed by each pass
+    uteranceList.clear();
+
+    for (size_t i=0 ; i < references->GetNumberOfSpeech() ; ++i)
     {
-        refs = references;
-        //init the uterance id list
-        uteranceList.clear();
-    
-        for (size_t i=0 ; i < references->GetNumberOfSpeech() ; ++i)
+        for (size_t j=0 ; j < references->GetSpeech(i)->NbOfSegments() ; ++j)
         {
-            for (size_t j=0 ; j < references->GetSpeech(i)->NbOfSegments() ; ++j)
-            {
-                Segment* seg = references->GetSpeech(i)->GetSegment(j);
-                uteranceList.insert(seg->GetId());
-            }
+            Segment* seg = references->GetSpeech(i)->GetSegment(j);
+            uteranceList.insert(seg->GetId());
         }
     }
   
-- 
2.43.0


From f98e424f674dff6c71120536699363891381987a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:08 +0000
Subject: [PATCH 056/152] fix: asclite ends when a block of the compressed
 matrix cannot be compressed

---
 src/asclite/core/compressedlevenshteinmatrix.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/asclite/core/compressedlevenshteinmatrix.cpp b/src/asclite/core/compressedlevenshteinmatrix.cpp
index d81b9a8..da10271 100644
--- a/src/asclite/core/compressedlevenshteinmatrix.cpp
+++ b/src/asclite/core/compressedlevenshteinmatrix.cpp
@@ -250,7 +250,7 @@ bool CompressedLevenshteinMatrix::DecompressBlock(const size_t& block_index)
 		
 		m_TabSizes[block_index] = decomp_lengh;
 		m_TabbIsCompressed[block_index] = false;
-		m_CurrentMemorySize += decomp_lengh - comp_lengh;
+		m_CurrentMemorySize += decomp_lengh - (comp_lengh + m_lzmaPropertiesSize);
 		++m_Decompressions;
 		--m_NbrCompressedBlocks;
 		++m_NbrDecompressedBlocks;
@@ -313,7 +313,16 @@ bool CompressedLevenshteinMatrix::ForcedGarbageCollection()
 	}
 	
 	if(found)
+	{
 		CompressBlock(min_index);
+		
+		// Incompressible block: stop there, and let the other blocks go first next time
+		if(!m_TabbIsCompressed[min_index])
+		{
+			TouchBlock(min_index);
+			found = false;
+		}
+	}
 	
 	return found;
 }
-- 
2.43.0


From 9fcd8b6f18f5cdfb17efe16b7ca30014f289e230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:20 +0000
Subject: [PATCH 057/152] fix: asclite stm: words begin after the fifth field,
 lines without the fields are not segments

---
 src/asclite/core/stm_inputparser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/asclite/core/stm_inputparser.cpp b/src/asclite/core/stm_inputparser.cpp
index 45e7ba7..e11044a 100644
--- a/src/asclite/core/stm_inputparser.cpp
+++ b/src/asclite/core/stm_inputparser.cpp
@@ -179,14 +179,16 @@ SpeechSet* STMInputParser::loadFile(const string& name)
 				start = ParseString(string(start_char));
 				end = ParseString(string(end_char));
 				
-                wordsBegin = line.find(start_char)+1;
-                wordsBegin = line.find(end_char, wordsBegin)+string(end_char).size();
+                // the words follow the five fields, whatever the fields look like
+                wordsBegin = 0;
+                sscanf(line.c_str(), "%*s %*s %*s %*s %*s%n", &wordsBegin);
                 
                 if (nbArgParsed < 5)
                 {
                     char buffer[BUFFER_SIZE];
                     sprintf(buffer, "Error parsing the line %li in file %s", lineNum, name.c_str());
                     LOG_ERR(logger, buffer);
+                    continue;
                 }
             }
             
-- 
2.43.0


From 0ec05d8ee667b6319c308c90c752bda126e909a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:20 +0000
Subject: [PATCH 058/152] fix: asclite stm: terminate the name compared with
 inter_segment_gap

---
 src/asclite/core/stm_inputparser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/asclite/core/stm_inputparser.cpp b/src/asclite/core/stm_inputparser.cpp
index e11044a..1a46122 100644
--- a/src/asclite/core/stm_inputparser.cpp
+++ b/src/asclite/core/stm_inputparser.cpp
@@ -37,6 +37,8 @@ bool STMInputParser::CompareToISGCaseInsensitive(char str[])
 		i++;
 	}
 	
+	tmp[i] = '\0';
+	
 	string tmpstr(tmp);
 	
 	return(tmpstr.compare(string("inter_segment_gap")) == 0);
-- 
2.43.0


From 5d900fe36088d8d951f0d025b6985e5163da69d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:20 +0000
Subject: [PATCH 059/152] fix: asclite ctm: a line without the fields does not
 repeat the word before it

---
 src/asclite/core/ctm_inputparser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/asclite/core/ctm_inputparser.cpp b/src/asclite/core/ctm_inputparser.cpp
index ac5bf0a..297af1e 100644
--- a/src/asclite/core/ctm_inputparser.cpp
+++ b/src/asclite/core/ctm_inputparser.cpp
@@ -86,6 +86,8 @@ SpeechSet* CTMInputParser::loadFile(const string& name)
                     char buffer[BUFFER_SIZE];
                     sprintf(buffer, "Error parsing the line %li in file %s", line_nb, name.c_str());
                     LOG_ERR(logger, buffer);
+                    ++line_nb;
+                    continue;
                 }
             }
 			
-- 
2.43.0


From c1cab0e94c9bdf3cd193a55c531ab93339f686bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:20 +0000
Subject: [PATCH 060/152] fix: asclite: the regions of a UEM file apply to the
 file they name, not to longer names

---
 src/asclite/core/uemfilter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asclite/core/uemfilter.cpp b/src/asclite/core/uemfilter.cpp
index cd15ae5..b953585 100644
--- a/src/asclite/core/uemfilter.cpp
+++ b/src/asclite/core/uemfilter.cpp
@@ -44,7 +44,7 @@ void UEMFilter::FindElement(const string& file, const string& channel, list<UEME
 
 	for(size_t i=0; i<m_VectUEMElements.size(); ++i)
 		if(m_VectUEMElements[i])
-			if( (file.find(m_VectUEMElements[i]->GetFile(), 0) == 0) && (channel.compare(m_VectUEMElements[i]->GetChannel()) == 0) )
+			if( (file.compare(m_VectUEMElements[i]->GetFile()) == 0) && (channel.compare(m_VectUEMElements[i]->GetChannel()) == 0) )
 				pList->push_back(m_VectUEMElements[i]);
 }
 
-- 
2.43.0


From a61abf9eccbc41bcbc2e672e2baf71459a12730c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:36 +0000
Subject: [PATCH 061/152] fix: asclite: a segment that begins or ends with a
 UEM region but crosses it is an error, as documented

---
 src/asclite/core/uemfilter.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/asclite/core/uemfilter.cpp b/src/asclite/core/uemfilter.cpp
index b953585..e5a73ec 100644
--- a/src/asclite/core/uemfilter.cpp
+++ b/src/asclite/core/uemfilter.cpp
@@ -176,9 +176,8 @@ unsigned long int UEMFilter::ProcessSingleSpeech(Speech* speech)
 						// [     {      ]     }
 						// us    ss     ue    se
 						
-						if( /*1*/( (segStartTime < uemStartTime) && (uemStartTime < segEndTime) && (segEndTime < uemEndTime) ) ||
-							/*2*/( (segStartTime < uemStartTime) && (uemStartTime < uemEndTime) && (uemEndTime < segEndTime) ) ||
-							/*3*/( (uemStartTime < segStartTime) && (segStartTime < uemEndTime) && (uemEndTime < segEndTime) ) )
+						// 1 to 3, a common begin or end time included: not fully inside, and not fully outside
+						if( (segStartTime < uemEndTime) && (uemStartTime < segEndTime) )
 						{
 							++nbrerr;
 							char bufferUEM1[BUFFER_SIZE];
-- 
2.43.0


From 0754f46c3f33e82f6042c82e3fef0c708233de0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:09 +0000
Subject: [PATCH 062/152] fix: asclite: evaluation regions that leave no
 reference segment do not crash the segmentation

---
 src/asclite/core/ctmstmrttm_segmentor.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/asclite/core/ctmstmrttm_segmentor.cpp b/src/asclite/core/ctmstmrttm_segmentor.cpp
index 7cfb82c..16ab84e 100644
--- a/src/asclite/core/ctmstmrttm_segmentor.cpp
+++ b/src/asclite/core/ctmstmrttm_segmentor.cpp
@@ -63,6 +63,13 @@ void CTMSTMRTTMSegmentor::Reset(SpeechSet* references, SpeechSet* hypothesis)
 	
     hyps = hypothesis;
     
+    // no reference left (after filtering): nothing to process
+    if(sourceList.empty())
+    {
+        currentSegmentRef = NULL;
+        return;
+    }
+    
     //init the iterator
     currentSource = *(sourceList.begin());
     sourceList.erase(currentSource);
-- 
2.43.0


From 09dbf0f19345e048c544034df4d783ee037203b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:46 +0000
Subject: [PATCH 063/152] fix: asclite sgml report: a system without any
 aligned segment does not crash

---
 src/asclite/core/sgml_reportgenerator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/asclite/core/sgml_reportgenerator.cpp b/src/asclite/core/sgml_reportgenerator.cpp
index 69aeecd..761d3a9 100644
--- a/src/asclite/core/sgml_reportgenerator.cpp
+++ b/src/asclite/core/sgml_reportgenerator.cpp
@@ -166,7 +166,9 @@ void SGMLReportGenerator::GenerateSystem(Alignment* alignment, const string& sys
 	output << " weight_filename=" << "\"" << weight_filename << "\"";
 	output << ">" << endl;
 	
-	GenerateCategoryLabel(parentSpeechSet, output);
+	// nothing has been aligned: no speech set either
+	if(parentSpeechSet)
+		GenerateCategoryLabel(parentSpeechSet, output);
 	
 	m_bRefHasTimes = m_bRefHasConf = m_bHypHasConf = m_bHypHasTimes = false;
 	Speakers::iterator current = speakers.begin();
-- 
2.43.0


From babe5b37a4de6c7811c3d75d93b45af336866d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:11 +0000
Subject: [PATCH 064/152] fix: asclite: removing a system word after an
 alternation keeps every alternative connected

---
 src/asclite/core/speech.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/asclite/core/speech.cpp b/src/asclite/core/speech.cpp
index 008bfc6..7be075e 100644
--- a/src/asclite/core/speech.cpp
+++ b/src/asclite/core/speech.cpp
@@ -184,6 +184,8 @@ void Speech::RemoveSegment(Segment* currentSegment)
 	
 	while(prev != eprev)
 	{
+		next = listNextTokenofLastToken.begin();
+		
 		while(next != enext)
 		{
 			(*prev)->AddNextToken(*next);
-- 
2.43.0


From 9437ef395a7461c5eb17e38fe1da9a7b7066ed39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:59 +0000
Subject: [PATCH 065/152] fix: rfilter1: only a slash after the arrow, outside
 brackets and before a slot marks the context

---
 src/rfilter1/include/grules2.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rfilter1/include/grules2.c b/src/rfilter1/include/grules2.c
index a4a4833..595c909 100644
--- a/src/rfilter1/include/grules2.c
+++ b/src/rfilter1/include/grules2.c
@@ -90,16 +90,18 @@ if (db_level > 1) printf("%s processing as format NIST1\n",pdb);
          {fprintf(stderr,"*ERR:%s: no arrow, line='%s'\n",proc,pline);
           *perr = 32; goto RETURN;
 	 }
-/* context marker is last slash IFF not enclosed in [] */
-       icontext = (Char *)strrchr((char *)pline,'/');
+/* context marker is last slash after the arrow, IFF not enclosed */
+/* in [] and followed by a slot                                   */
+       icontext = (Char *)strrchr((char *)ieq,'/');
        if (icontext != NULL)
          {irmark = (Char *)strchr((char *)icontext,']');
 	   ilmark = (Char *)strchr((char *)icontext,'[');
-          if (irmark < ilmark) /* enclosed in [] */
+          if ((irmark != NULL)&&((ilmark == NULL)||(irmark < ilmark))) /* enclosed in [] */
             {icontext = NULL;
 	    }
           else
             {islot = (Char *)strstr((char *)icontext,"_");
+             if (islot == NULL) icontext = NULL; /* no slot: part of the string */
 	    }
 	 }
      /* initialize rule */
-- 
2.43.0


From 643b80d746897210ae219a381b210318ffcfa58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:59 +0000
Subject: [PATCH 066/152] fix: rfilter1: a left context does not match text
 before the start of the line

---
 src/rfilter1/include/aprules2.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rfilter1/include/aprules2.c b/src/rfilter1/include/aprules2.c
index ce78a7e..07c642c 100644
--- a/src/rfilter1/include/aprules2.c
+++ b/src/rfilter1/include/aprules2.c
@@ -45,6 +45,7 @@ if (db_level > 1) printf("%s jrule=%d, irule=%d\n",pdb,jrule,irule);
  if (streq((char *)rset->format,"NIST1"))
           {if ( ((rset->case_sensitive)&&
                  (strncmp((char *)pi,(char *)(rset->rule[irule].sin),rset->rule[irule].sinl)==0)&&
+                 ((pi - pa) >= rset->rule[irule].lcontextl)&&
                  (strncmp((char *)(pi-rset->rule[irule].lcontextl),
                           (char *)rset->rule[irule].lcontext,
                           rset->rule[irule].lcontextl)==0)&&
@@ -53,6 +54,7 @@ if (db_level > 1) printf("%s jrule=%d, irule=%d\n",pdb,jrule,irule);
                           rset->rule[irule].rcontextl)==0))
              || ((!rset->case_sensitive)&&
                  (strncasecmp((char *)pi,(char *)rset->rule[irule].sin,rset->rule[irule].sinl)==0)&&
+                 ((pi - pa) >= rset->rule[irule].lcontextl)&&
                  (strncasecmp((char *)(pi-rset->rule[irule].lcontextl),
 			      (char *)rset->rule[irule].lcontext,
                           rset->rule[irule].lcontextl)==0)&&
@@ -68,7 +70,7 @@ if (db_level > 1) printf("%s rule fired\n",pdb);
              }
 if (db_level > 2) printf("%s irule=%d, lcontextl=%d, lcont match = %s\n",
 pdb,irule,rset->rule[irule].lcontextl,
-			 bool_print((strncasecmp((char *)(pi-rset->rule[irule].lcontextl),
+			 bool_print(((pi - pa) >= rset->rule[irule].lcontextl)&&(strncasecmp((char *)(pi-rset->rule[irule].lcontextl),
 						 (char *)(rset->rule[irule].lcontext),
                     rset->rule[irule].lcontextl)==0)));
           }
-- 
2.43.0


From b3d3b10e24c61ef6fb4e0319f2e83a21cd9c906d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:59 +0000
Subject: [PATCH 067/152] fix: rfilter1: rule table holds max_nrules rules, and
 a file without rules does not crash

---
 src/rfilter1/include/grules2.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/rfilter1/include/grules2.c b/src/rfilter1/include/grules2.c
index 595c909..afebab7 100644
--- a/src/rfilter1/include/grules2.c
+++ b/src/rfilter1/include/grules2.c
@@ -297,8 +297,8 @@ if (db_level > 2) printf("%s line:'%s'\n",pdb,pline);
              if (*perr > 0) goto RETURN;
 	    }
           else
-            {if (n_data_lines_processed == 0)
-               rset->rule = (RULE2*) calloc_safe((size_t)rset->max_nrules,sizeof(RULE2),proc);
+            {if (n_data_lines_processed == 0) /* rules are numbered from 1 */
+               rset->rule = (RULE2*) calloc_safe((size_t)rset->max_nrules+1,sizeof(RULE2),proc);
              remove_comments(pline,comment_flag);
              r_process_data_line(rset,pline,perr);
              if (*perr > 0) goto RETURN;
@@ -312,6 +312,9 @@ if (db_level > 2) printf("%s line:'%s'\n",pdb,pline);
   /* close file & adjust some variables  */
     if (fclose(fp) != 0)
       fprintf(stderr,"%s: error return from fclose\n",proc);
+  /* a file without any rule */
+    if (n_data_lines_processed == 0)
+      rset->rule = (RULE2*) calloc_safe((size_t)1,sizeof(RULE2),proc);
   /* zero out value for each rule */
     for (i=0; i <= rset->nrules; i++) rset->rule[i].val1 = 0;
   /* make rule indexing tables */
-- 
2.43.0


From a3753e6e4db5c653ea41efbd0cf44a58fb6f42d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:59 +0000
Subject: [PATCH 068/152] fix: rfilter1: words in the quoted value of a header
 line are not taken for header keywords

---
 src/rfilter1/include/grules2.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rfilter1/include/grules2.c b/src/rfilter1/include/grules2.c
index afebab7..e26382a 100644
--- a/src/rfilter1/include/grules2.c
+++ b/src/rfilter1/include/grules2.c
@@ -33,6 +33,7 @@
       }
     else
       {sval = substr_to_str(ssp,sval,LINE_LENGTH);
+       *(upr_pline + (ssp->start - pline)) = '\0'; /* the value is no keyword */
 /* identify field and store its value */
 	if (strstr((char *)upr_pline,"NAME"))
          {free_str(rset->name);
-- 
2.43.0


From 882e70169dd0cdfe10a9d5de381b04aac1032f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:59 +0000
Subject: [PATCH 069/152] fix: rfilter1: accept the documented rule format
 NIST2

---
 src/rfilter1/include/aprules2.c | 4 ++--
 src/rfilter1/include/grules2.c  | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/rfilter1/include/aprules2.c b/src/rfilter1/include/aprules2.c
index 07c642c..e0e2730 100644
--- a/src/rfilter1/include/aprules2.c
+++ b/src/rfilter1/include/aprules2.c
@@ -27,7 +27,7 @@ Char *apply_rules2(Char *pb, Char *pa, RULESET2 *rset, int *perr)
     {pb = (Char *)strcpy((char *)pb,(char *)pa);
      goto RETURN;
     }
-  if (!streq((char *)(rset->format),"NIST1"))
+  if (!streq((char *)(rset->format),"NIST1") && !streq((char *)(rset->format),"NIST2"))
     {fprintf(stderr,"*ERR:%s: invalid format '%s'\n",proc,rset->format);
      *perr = 11;
      goto RETURN;
@@ -42,7 +42,7 @@ if (db_level > 1) printf("%s key_char = %d (%c)\n",pdb,key_char,key_char);
      for (jrule = rset->first_rule[key_char]; (!hit) && (jrule <= rset->last_rule[key_char]); jrule++)
        {irule = rset->rule_index[jrule];
 if (db_level > 1) printf("%s jrule=%d, irule=%d\n",pdb,jrule,irule);
- if (streq((char *)rset->format,"NIST1"))
+ if (streq((char *)rset->format,"NIST1") || streq((char *)rset->format,"NIST2"))
           {if ( ((rset->case_sensitive)&&
                  (strncmp((char *)pi,(char *)(rset->rule[irule].sin),rset->rule[irule].sinl)==0)&&
                  ((pi - pa) >= rset->rule[irule].lcontextl)&&
diff --git a/src/rfilter1/include/grules2.c b/src/rfilter1/include/grules2.c
index e26382a..a1c05c7 100644
--- a/src/rfilter1/include/grules2.c
+++ b/src/rfilter1/include/grules2.c
@@ -81,7 +81,8 @@ if (db_level > 1) printf("%s data line '%s'\n",pdb,pline);
       }
   /* check for which format  */
   /* NIST1: literal ascii, optionally context-sensitive  */
-    if (streq((char *)rset->format,"NIST1"))
+  /* NIST2: the same, the documented name for context-sensitive rules */
+    if (streq((char *)rset->format,"NIST1") || streq((char *)rset->format,"NIST2"))
       {/* get major boundary elements */
 
 if (db_level > 1) printf("%s processing as format NIST1\n",pdb);
-- 
2.43.0


From 291530787015575663a24ff61b0516eec55258b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:59 +0000
Subject: [PATCH 070/152] fix: rfilter1: rule file lines of more than 131
 characters are not split

---
 src/rfilter1/include/stdpars.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rfilter1/include/stdpars.h b/src/rfilter1/include/stdpars.h
index 6c5a074..181fc3b 100644
--- a/src/rfilter1/include/stdpars.h
+++ b/src/rfilter1/include/stdpars.h
@@ -6,7 +6,7 @@
 
 
 #ifndef LINE_LENGTH
-#define LINE_LENGTH  132
+#define LINE_LENGTH 2000
 #endif
 
 #ifndef LONG_LINE
-- 
2.43.0


From 4b1a67c0626a4121c614b082778f988988165f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:59 +0000
Subject: [PATCH 071/152] fix: rfilter1: a result longer than the input buffer
 does not overflow

---
 src/rfilter1/rfilter1.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/rfilter1/rfilter1.c b/src/rfilter1/rfilter1.c
index 56129e6..61c58b4 100644
--- a/src/rfilter1/rfilter1.c
+++ b/src/rfilter1/rfilter1.c
@@ -32,7 +32,8 @@ int main(int argc, char **argv)
   Char rxf[LONG_LINE], *fname_rules = &rxf[0];
 #define MAX_INPUT_REC 100000
   Char pax[MAX_INPUT_REC], *pa = &pax[0];
-  Char pbx[MAX_INPUT_REC], *pb = &pbx[0];
+  Char *pb = NULL; size_t pb_size = 0, pb_need;
+  int irule, max_soutl = 1;
   Char *path = (Char *)"";
   int err; int *perr = &err;
   RULESET2 rset_data, *rset = &rset_data;
@@ -58,6 +59,10 @@ if (db_level > 2)
    dump_rules2(rset);
   }
 
+/* get length of the longest output string */
+ for (irule = 1; irule <= rset->nrules; irule++)
+   if (rset->rule[irule].soutl > max_soutl) max_soutl = rset->rule[irule].soutl;
+
 /* exercise the rules */
  while (fgets((char *)pa,MAX_INPUT_REC,stdin) != NULL)
    {if (*(pa + strlen((char *)pa) - 1) != '\n')
@@ -65,6 +70,13 @@ if (db_level > 2)
         fprintf(stderr," probably truncated.\n  Line is:'%s'\n",pa);
        }
 if (db_level > 1) printf("%s pa=%s",pdb,pa);
+     /* each input character yields at most the longest output string */
+     pb_need = strlen((char *)pa) * max_soutl + 1;
+     if (pb_need > pb_size)
+       {free(pb);
+        pb = (Char *)calloc_safe(pb_need,sizeof(Char),(Char *)proc);
+        pb_size = pb_need;
+       }
  pb = (Char *)strcpy((char *)pb,"");
      pb = apply_rules2(pb,pa,rset,perr);
 if (db_level > 1) printf("%s pb=%s",pdb,pb);
@@ -78,6 +90,7 @@ if (db_level > 0)
     "%s *DB: At end of run, the rules (with val1= no. of hits) are:\n",pdb);
    dump_rules3(rset,stderr);
   }
+  free(pb);
   free_rules2(rset);
   return 0;
  } /* end main */
-- 
2.43.0


From 7a34f40d44feb8761acafd0d26798d80c087d4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:34 +0000
Subject: [PATCH 072/152] fix: csrfilt: comment lines of txt input pass through

---
 src/csrfilt/csrfilt.sh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/csrfilt/csrfilt.sh b/src/csrfilt/csrfilt.sh
index 9e36956..03908dc 100755
--- a/src/csrfilt/csrfilt.sh
+++ b/src/csrfilt/csrfilt.sh
@@ -540,6 +540,14 @@ elif test "$inputtype" = "trn" ; then
 	perl -pe 'if ($_ !~ /^;/) {s/^[ \t]+//; s/[ \t]+$//; s/[ \t]+/ /g}'
 else
 	eval $filt_com | \
+	perl -e '$inext = "'/tmp/hs_filt.outext.$$'";
+		open(IN,"<$inext") || die("Error: failed to open input \"$inext\" of the text file");
+		while (! eof(STDIN)){
+			$text = <STDIN>;
+			$ext = <IN>;
+			print (($ext =~ /^;;/) ? $ext : $text);
+		}
+		close IN' | \
 	perl -pe 'if ($_ !~ /^;/) {s/^[ \t]+//; s/[ \t]+$//; s/[ \t]+/ /g}'
 fi
 
-- 
2.43.0


From a4555923d9bf2041b174e7beacad8d13014bb84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:34 +0000
Subject: [PATCH 073/152] fix: csrfilt: the type of an rttm lexeme is its type
 field, not a word that looks like one

---
 src/csrfilt/csrfilt.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csrfilt/csrfilt.sh b/src/csrfilt/csrfilt.sh
index 03908dc..73a4f4e 100755
--- a/src/csrfilt/csrfilt.sh
+++ b/src/csrfilt/csrfilt.sh
@@ -379,11 +379,11 @@ elif test "$inputtype" = "rttm" ; then
 		 open(OUT1,">$out1") || die("Error: failed to open output \"$out1\" of the stm file");
 		 open(OUT2,">$out2") || die("Error: failed to open output \"$out2\" of the stm file");
 		 while(<IN>){
-			 if ($_ !~ /^ LEXEME.* (lex|fp|un-lex|for-lex|alpha|acronym|interjection|propernoun|other) /) { 
+			 @a = split(/\s+/, $_);
+			 if ($_ !~ /^ LEXEME / || $a[7] !~ /^(lex|fp|un-lex|for-lex|alpha|acronym|interjection|propernoun|other)$/) { 
 				 print OUT1 $_; 
 				 print OUT2 "\n";
 			 } else {
-				 @a = split(/\s+/, $_);
 				 print OUT2 splice(@a,6,1)."\n";
 				 print OUT1 join(" ",@a)."\n";
 			 }
-- 
2.43.0


From 7f2ef81a1d1bb6b41641e6a762ffab500ba867f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:34 +0000
Subject: [PATCH 074/152] fix: csrfilt -e: the division sign and y with
 diaeresis have no extended ASCII upper case

---
 src/csrfilt/csrfilt.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csrfilt/csrfilt.sh b/src/csrfilt/csrfilt.sh
index 73a4f4e..5975775 100755
--- a/src/csrfilt/csrfilt.sh
+++ b/src/csrfilt/csrfilt.sh
@@ -203,7 +203,7 @@ toUpper(){
     perl -pe 'if ($_ !~ /^;;/){
 		    if ("'$UpCase'" eq "true") { 
 			    tr/a-z/A-Z/; 
-			    if ("'$ExtASCII'" eq "true") { tr/\340-\377/\300-\337/; }
+			    if ("'$ExtASCII'" eq "true") { tr/\340-\366\370-\376/\300-\326\330-\336/; }
 		    }
 	      }'
 }
-- 
2.43.0


From 8f5e3ab6412bd811a5210aa6be797d6a032f7e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:09 +0000
Subject: [PATCH 075/152] fix: csrfilt: a word that the rules delete leaves no
 record without a word and no empty parentheses

---
 src/csrfilt/csrfilt.sh | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/csrfilt/csrfilt.sh b/src/csrfilt/csrfilt.sh
index 5975775..c8ddf36 100755
--- a/src/csrfilt/csrfilt.sh
+++ b/src/csrfilt/csrfilt.sh
@@ -385,7 +385,7 @@ elif test "$inputtype" = "rttm" ; then
 				 print OUT2 "\n";
 			 } else {
 				 print OUT2 splice(@a,6,1)."\n";
-				 print OUT1 join(" ",@a)."\n";
+				 print OUT1 "\t".join(" ",@a)."\n"; # the tab marks a filtered record
 			 }
 		 }
 		 close IN; close OUT1; close OUT2;'
@@ -472,7 +472,7 @@ fi
 #########################################################################
 ####   Step 3: Build the filter command
 
-filt_com="cat /tmp/hs_filt.out.$$ | toUpper | perl -pe 's/\(/( /g; s/\)/ )/g; s/^/ /; s/$/ /;' | rfilter1 /tmp/hs_filt.glm.$$ | deleteHyphens | propogateOptDel | perl -pe 's/^ //; s/ $//' | perl -pe 's/\(\s+/(/g; s/\s+\)/)/g;' | tee /tmp/hs_filt.filtout."$$" "
+filt_com="cat /tmp/hs_filt.out.$$ | toUpper | perl -pe 's/\(/( /g; s/\)/ )/g; s/^/ /; s/$/ /;' | rfilter1 /tmp/hs_filt.glm.$$ | deleteHyphens | propogateOptDel | perl -pe 's/^ //; s/ $//' | perl -pe 's/\(\s+\)/ /g; s/\(\s+/(/g; s/\s+\)/)/g; s/^[ \t]+$//;' | tee /tmp/hs_filt.filtout."$$" "
 
 #########################################################################################
 ####   Step 4: execute the filter command putting back together the text and other data
@@ -498,14 +498,15 @@ if test "$inputtype" = "ctm" ; then
 elif test "$inputtype" = "rttm" ; then
     # the first perl command handles converting alternations and duel words to underscore notation
 	eval $filt_com | \
-	    perl -pe 'chomp; if ($_ =~ /\s/){s/([\{\}\/\@])/ $1 /g; s/\s+/ /g; s/^\s//; s/\s$//; s/\s/_/g; } $_ .= "\n"' | \
+	    perl -pe 'chomp; s/^\s+//; s/\s+$//; if ($_ =~ /\s/){s/([\{\}\/\@])/ $1 /g; s/\s+/ /g; s/^\s//; s/\s$//; s/\s/_/g; } $_ .= "\n"' | \
 	    perl -e '$inext = "'/tmp/hs_filt.outext.$$'";
 		open(IN,"<$inext") || die("Error: failed to open input \"$out1\" of the stm file");
 		while (! eof(STDIN)){
 			$text = <STDIN>;
 			chomp($text);
 			$ext = <IN>;
-			if ($text ne ""){
+			if ($ext =~ s/^\t//){
+				next if ($text eq ""); # the rules deleted the word
 				@a = split(/\s+/,$ext);
 				splice(@a, 6, 0, $text);
 				$ext = join(" ",@a)."\n";
-- 
2.43.0


From 090fc397a9dcd23fe51736680da86a7ae88f9e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:09 +0000
Subject: [PATCH 076/152] fix: csrfilt -i ctm: the confidence is told from the
 words by its field, not by its looks

---
 src/csrfilt/csrfilt.sh | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/csrfilt/csrfilt.sh b/src/csrfilt/csrfilt.sh
index c8ddf36..94fbdb0 100755
--- a/src/csrfilt/csrfilt.sh
+++ b/src/csrfilt/csrfilt.sh
@@ -289,18 +289,15 @@ cat > /tmp/hs_filt.ctm.$$ << EOF
   while (<>){
     if (\$_ =~ /^;;/) {print} 
     else {
-	s/^\s+//;
-	s/([{}])/ \1 /g;
-	@l = split;
-	if (\$#l == 4) {print}
+	chomp;
+	# file, channel, begin, duration, text and confidence, separated by tabs
+	@l = split(/\t/);
+	(\$data,\$conf) = @l[4,5];
+	if (\$data !~ /[{}\s]/ && ! defined(\$conf)) {print join(" ",@l)."\n"}
 	else {
-	    if (\$l[\$#l] =~ /^[0-9\.-]*\$/) {\$limit=\$#l-1;\$conf=\$l[\$#l]} 
-	    else {                         \$limit=\$#l;\$conf=""} ; 
-
-	    \$data = join(" ",splice(@l,4,\$limit - 4 + 1));
-	    @sets = split(/\//,\$data);
+	    @sets = (\$data =~ /[{}]/) ? split(/\//,\$data) : (\$data);
 	    if (\$#sets > 0) {
-		printf "%s %s * * %s <ALT_BEGIN>\n",\$l[0],\$l[1],\$word,\$conf;
+		printf "%s %s * * <ALT_BEGIN>\n",\$l[0],\$l[1];
 	    }
 	    for (\$sn = 0; \$sn <= \$#sets; \$sn++){
 		\$set = \$sets[\$sn];
@@ -314,11 +311,11 @@ cat > /tmp/hs_filt.ctm.$$ << EOF
 		    \$i ++;
 		}
 		if (\$#sets > 0 && \$sn != \$#sets){
-		    printf "%s %s * * %s <ALT>\n",\$l[0],\$l[1],\$word,\$conf;
+		    printf "%s %s * * <ALT>\n",\$l[0],\$l[1];
 		}
 	    }
 	    if (\$#sets > 0) {
-		printf "%s %s * * %s <ALT_END>\n",\$l[0],\$l[1],\$word,\$conf;
+		printf "%s %s * * <ALT_END>\n",\$l[0],\$l[1];
 	    }
 	}
     }
@@ -485,10 +482,14 @@ if test "$inputtype" = "ctm" ; then
 			$text = <STDIN>;
 			chomp($text);
 			$ext = <IN>;
-			if ($text ne ""){
-				@a = split(/\s+/,$ext);
-				splice(@a, 5, 0, $text);
-				$ext = join(" ",@a)."\n";
+			if ($ext !~ /^;;/){
+				@a = split(" ",$ext);
+				next if (@a < 4);
+				$conf = (@a > 4 && $a[$#a] =~ /^-?[0-9.]+(e[-+]?[0-9]+)?$/i) ? "\t".pop(@a) : "";
+				$text = join(" ",split(" ",$text),@a[4..$#a]);
+				next if ($text eq ""); # the rules deleted the word
+				# the text may hold several words: separate the fields by tabs
+				$ext = join("\t",@a[0..3],$text).$conf."\n";
 			}
 			print $ext;
 		}
-- 
2.43.0


From e42a4f1e03989282cb0589c4f58ab2b50fa1ec32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:43 +0000
Subject: [PATCH 077/152] fix: csrfilt: blank lines do not end the filtering of
 stm and trn files

---
 src/csrfilt/csrfilt.sh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/csrfilt/csrfilt.sh b/src/csrfilt/csrfilt.sh
index 94fbdb0..8d3fe80 100755
--- a/src/csrfilt/csrfilt.sh
+++ b/src/csrfilt/csrfilt.sh
@@ -396,6 +396,9 @@ elif test "$inputtype" = "stm" ; then
 			 if ($_ =~ /^;;/) { 
 				 print OUT1 $_; 
 				 print OUT2 "\n";
+			 } elsif ($_ =~ /^\s*$/) { 
+				 print OUT1 "\n"; 
+				 print OUT2 "\n";
 			 } elsif ($_ =~ /^(\s*\S+\s*\S+\s*\S+\s*\S+\s*\S+\s*<\S+>)(.*)$/){
 				 print OUT1 $1."\n";
 				 print OUT2 $2."\n";
@@ -417,6 +420,9 @@ elif test "$inputtype" = "trn" ; then
 			 if ($_ =~ /^;;/) { 
 				 print OUT1 $_; 
 				 print OUT2 "\n";
+			 } elsif ($_ =~ /^\s*$/) { 
+				 print OUT1 "\n"; 
+				 print OUT2 "\n";
 			 } elsif ($_ =~ /^(.*)(\(.*\))\s*$/){
 				 print OUT2 $1."\n";
 				 print OUT1 $2."\n";
-- 
2.43.0


From 39ad6010db68d9b6aa652285c7a24cd96ebea9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:13 +0000
Subject: [PATCH 078/152] fix: csrfilt: fail when the input or the rules cannot
 be read instead of losing records

---
 src/csrfilt/csrfilt.sh | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/csrfilt/csrfilt.sh b/src/csrfilt/csrfilt.sh
index 8d3fe80..3b10a14 100755
--- a/src/csrfilt/csrfilt.sh
+++ b/src/csrfilt/csrfilt.sh
@@ -399,10 +399,10 @@ elif test "$inputtype" = "stm" ; then
 			 } elsif ($_ =~ /^\s*$/) { 
 				 print OUT1 "\n"; 
 				 print OUT2 "\n";
-			 } elsif ($_ =~ /^(\s*\S+\s*\S+\s*\S+\s*\S+\s*\S+\s*<\S+>)(.*)$/){
+			 } elsif ($_ =~ /^(\s*\S+\s+\S+\s+\S+\s+\S+\s+\S+\s+<\S+>)(.*)$/){
 				 print OUT1 $1."\n";
 				 print OUT2 $2."\n";
-			 } elsif ($_ =~ /^(\s*\S+\s*\S+\s*\S+\s*\S+\s*\S+)(.*)$/){
+			 } elsif ($_ =~ /^(\s*\S+\s+\S+\s+\S+\s+\S+\s+\S+)(.*)$/){
 				 print OUT1 $1."\n";
 				 print OUT2 $2."\n";		
 			 } else {
@@ -459,6 +459,11 @@ else
 		cp /tmp/hs_filt.orig.$$ /tmp/hs_filt.out.$$
 	fi
 fi
+if test $? -ne 0 ; then
+    echo "Error: Unable to parse the $inputtype input" 1>&2
+    /bin/rm -f /tmp/hs_filt.*.$$
+    exit 1
+fi
 
 ############################################################################################
 ####   Step 2: Check the optionally deletable tags.  The code relies on them being valid
@@ -467,6 +472,7 @@ ret="`cat /tmp/hs_filt.out.$$ | perl -pe 's/\(/( /g; s/\)/ )/g; s/^/ /; s/$/ /;'
 if [ $ret = "error" ] ; then
     echo "Error: Can not filter text with illegally formatted optional deletion tags.  Look for:"
     cat /tmp/hs_filt.out.$$ | perl -pe 's/\(/( /g; s/\)/ )/g; s/^/ /; s/$/ /;' | getInvalidOptDelTags
+    /bin/rm -f /tmp/hs_filt.*.$$
     exit 1
 fi
 
@@ -475,7 +481,7 @@ fi
 #########################################################################
 ####   Step 3: Build the filter command
 
-filt_com="cat /tmp/hs_filt.out.$$ | toUpper | perl -pe 's/\(/( /g; s/\)/ )/g; s/^/ /; s/$/ /;' | rfilter1 /tmp/hs_filt.glm.$$ | deleteHyphens | propogateOptDel | perl -pe 's/^ //; s/ $//' | perl -pe 's/\(\s+\)/ /g; s/\(\s+/(/g; s/\s+\)/)/g; s/^[ \t]+$//;' | tee /tmp/hs_filt.filtout."$$" "
+filt_com="cat /tmp/hs_filt.out.$$ | toUpper | perl -pe 's/\(/( /g; s/\)/ )/g; s/^/ /; s/$/ /;' | ( rfilter1 /tmp/hs_filt.glm.$$ || touch /tmp/hs_filt.failed.$$ ) | deleteHyphens | propogateOptDel | perl -pe 's/^ //; s/ $//' | perl -pe 's/\(\s+\)/ /g; s/\(\s+/(/g; s/\s+\)/)/g; s/^[ \t]+$//;' | tee /tmp/hs_filt.filtout."$$" "
 
 #########################################################################################
 ####   Step 4: execute the filter command putting back together the text and other data
@@ -559,6 +565,11 @@ else
 	perl -pe 'if ($_ !~ /^;/) {s/^[ \t]+//; s/[ \t]+$//; s/[ \t]+/ /g}'
 fi
 
+if test -f /tmp/hs_filt.failed.$$ ; then
+    echo "Error: Unable to apply the rules in '$glob_map'" 1>&2
+    /bin/rm -f /tmp/hs_filt.*.$$
+    exit 1
+fi
 
 # clean up
 /bin/rm -f /tmp/hs_filt.*.$$
-- 
2.43.0


From 0b0a253db49a3235150a07f1fac25c768cbc81d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:02 +0000
Subject: [PATCH 079/152] fix: csrfilt: an alternation inside an optionally
 deletable tag stays an alternation

---
 src/csrfilt/csrfilt.sh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csrfilt/csrfilt.sh b/src/csrfilt/csrfilt.sh
index 3b10a14..4217302 100755
--- a/src/csrfilt/csrfilt.sh
+++ b/src/csrfilt/csrfilt.sh
@@ -217,6 +217,8 @@ deleteHyphens(){
 propogateOptDel(){
     perl -e 'my $count = 0;
 	      while (<>){
+		  # alternations within the tag: each of their words is optionally deletable
+		  s/\(\s+([^()]*\{[^()]*)\s\)/($a = $1) =~ s:([{}\/]): $1 :g; join(" ",map { m:^[{}\/@]$: ? $_ : "( $_ )" } split(" ",$a))/ge;
 		  while ($_ =~ s/(\(\s+[^()\s]+\s+)([^()\s]+)/$1\) \( $2/){
 		      ;
 		  }
-- 
2.43.0


From f13247a322c47a2888486a8683f8ea814d11e60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:25 +0000
Subject: [PATCH 080/152] fix: md-eval: a no-score zone that begins where an
 evaluation region begins is not scored

---
 src/md-eval/md-eval.pl | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/md-eval/md-eval.pl b/src/md-eval/md-eval.pl
index c5609eb..77ec1b2 100755
--- a/src/md-eval/md-eval.pl
+++ b/src/md-eval/md-eval.pl
@@ -2113,9 +2113,8 @@ sub exclude_overlapping_speech_from_uem {
 	$evl_cnt += $event->{EVENT} eq "BEG" ? 1 : -1 if $event->{TYPE} eq "UEM";
 	$nsz_cnt += $event->{EVENT} eq "BEG" ? 1 : -1 if $event->{TYPE} eq "NSZ";
 	if ($evaluating and
-	    ($evl_cnt == 0 or $nsz_cnt > 0) and
-	    $event->{TIME} > $tbeg) {
-	    push @$uem_ex, {TBEG => $tbeg, TEND => $event->{TIME}};
+	    ($evl_cnt == 0 or $nsz_cnt > 0)) {
+	    push @$uem_ex, {TBEG => $tbeg, TEND => $event->{TIME}} if $event->{TIME} > $tbeg;
 	    $evaluating = 0;
 	}
 	elsif ($evl_cnt > 0 and $nsz_cnt == 0) {
@@ -2226,9 +2225,8 @@ sub add_exclusion_zones_to_uem {
 	$evl_cnt += $event->{EVENT} eq "BEG" ? 1 : -1 if $event->{TYPE} eq "UEM";
 	$nsz_cnt += $event->{EVENT} eq "BEG" ? 1 : -1 if $event->{TYPE} eq "NSZ";
 	if ($evaluating and
-	    ($evl_cnt == 0 or $nsz_cnt > 0) and
-	    $event->{TIME} > $tbeg) {
-	    push @$uem_ex, {TBEG => $tbeg, TEND => $event->{TIME}};
+	    ($evl_cnt == 0 or $nsz_cnt > 0)) {
+	    push @$uem_ex, {TBEG => $tbeg, TEND => $event->{TIME}} if $event->{TIME} > $tbeg;
 	    $evaluating = 0;
 	}
 	elsif ($evl_cnt > 0 and $nsz_cnt == 0) {
-- 
2.43.0


From 2b84a2b0b9f24b850fbb3df70462ba6368b36134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:25 +0000
Subject: [PATCH 081/152] fix: md-eval: a no-score zone after the last speaker
 turn ends where it ends

---
 src/md-eval/md-eval.pl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/md-eval/md-eval.pl b/src/md-eval/md-eval.pl
index 77ec1b2..e4e8188 100755
--- a/src/md-eval/md-eval.pl
+++ b/src/md-eval/md-eval.pl
@@ -2210,6 +2210,7 @@ sub add_exclusion_zones_to_uem {
 	    $evaluating = 0;
 	}
     }
+    push @events, {TYPE => "NSZ", EVENT => "END", TIME => $tend_nsz+$max_extend} unless $evaluating;
 
 #merge noscore zones with UEM data
     foreach $uem (@$uem_score) {
-- 
2.43.0


From 4301415c652536fcff51f6112bc58fed3aad5e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:25 +0000
Subject: [PATCH 082/152] fix: md-eval: report instead of dying when no time,
 speech or speaker time is scored

---
 src/md-eval/md-eval.pl | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/md-eval/md-eval.pl b/src/md-eval/md-eval.pl
index e4e8188..6dc9a22 100755
--- a/src/md-eval/md-eval.pl
+++ b/src/md-eval/md-eval.pl
@@ -2363,6 +2363,15 @@ sub sd_performance_analysis {
 
 #################################
 
+sub percent {
+
+    my ($part, $total) = @_;
+
+    return $total ? 100*$part/$total : 0;
+}
+
+#################################
+
 sub print_sd_scores {
 
     my ($condition, $scores) = @_;
@@ -2371,32 +2380,32 @@ sub print_sd_scores {
 
     printf "    EVAL TIME =%10.2f secs\n", $scores->{EVAL_TIME};
     printf "  EVAL SPEECH =%10.2f secs (%5.1f percent of evaluated time)\n", $scores->{EVAL_SPEECH},
-        100*$scores->{EVAL_SPEECH}/$scores->{EVAL_TIME};
+        percent ($scores->{EVAL_SPEECH}, $scores->{EVAL_TIME});
     printf "  SCORED TIME =%10.2f secs (%5.1f percent of evaluated time)\n",
-        $scores->{SCORED_TIME}, 100*$scores->{SCORED_TIME}/$scores->{EVAL_TIME};
+        $scores->{SCORED_TIME}, percent ($scores->{SCORED_TIME}, $scores->{EVAL_TIME});
     printf "SCORED SPEECH =%10.2f secs (%5.1f percent of scored time)\n",
-        $scores->{SCORED_SPEECH}, 100*$scores->{SCORED_SPEECH}/$scores->{SCORED_TIME};
+        $scores->{SCORED_SPEECH}, percent ($scores->{SCORED_SPEECH}, $scores->{SCORED_TIME});
     printf "   EVAL WORDS =%7d        \n", $scores->{EVAL_WORDS};
     printf " SCORED WORDS =%7d         (%5.1f percent of evaluated words)\n",
-        $scores->{SCORED_WORDS}, 100*$scores->{SCORED_WORDS}/$scores->{EVAL_WORDS};
+        $scores->{SCORED_WORDS}, percent ($scores->{SCORED_WORDS}, $scores->{EVAL_WORDS});
     print "---------------------------------------------\n";
     printf "MISSED SPEECH =%10.2f secs (%5.1f percent of scored time)\n",
-        $scores->{MISSED_SPEECH}, 100*$scores->{MISSED_SPEECH}/$scores->{SCORED_TIME};
+        $scores->{MISSED_SPEECH}, percent ($scores->{MISSED_SPEECH}, $scores->{SCORED_TIME});
     printf "FALARM SPEECH =%10.2f secs (%5.1f percent of scored time)\n",
-        $scores->{FALARM_SPEECH}, 100*$scores->{FALARM_SPEECH}/$scores->{SCORED_TIME};
+        $scores->{FALARM_SPEECH}, percent ($scores->{FALARM_SPEECH}, $scores->{SCORED_TIME});
     printf " MISSED WORDS =%7d         (%5.1f percent of scored words)\n",
-        $scores->{MISSED_WORDS}, 100*$scores->{MISSED_WORDS}/$scores->{SCORED_WORDS};
+        $scores->{MISSED_WORDS}, percent ($scores->{MISSED_WORDS}, $scores->{SCORED_WORDS});
     print "---------------------------------------------\n";
     printf "SCORED SPEAKER TIME =%10.2f secs (%5.1f percent of scored speech)\n",
-        $scores->{SCORED_SPEAKER}, 100*$scores->{SCORED_SPEAKER}/$scores->{SCORED_SPEECH};
+        $scores->{SCORED_SPEAKER}, percent ($scores->{SCORED_SPEAKER}, $scores->{SCORED_SPEECH});
     printf "MISSED SPEAKER TIME =%10.2f secs (%5.1f percent of scored speaker time)\n",
-        $scores->{MISSED_SPEAKER}, 100*$scores->{MISSED_SPEAKER}/$scores->{SCORED_SPEAKER};
+        $scores->{MISSED_SPEAKER}, percent ($scores->{MISSED_SPEAKER}, $scores->{SCORED_SPEAKER});
     printf "FALARM SPEAKER TIME =%10.2f secs (%5.1f percent of scored speaker time)\n",
-        $scores->{FALARM_SPEAKER}, 100*$scores->{FALARM_SPEAKER}/$scores->{SCORED_SPEAKER};
+        $scores->{FALARM_SPEAKER}, percent ($scores->{FALARM_SPEAKER}, $scores->{SCORED_SPEAKER});
     printf " SPEAKER ERROR TIME =%10.2f secs (%5.1f percent of scored speaker time)\n",
-        $scores->{SPEAKER_ERROR}, 100*$scores->{SPEAKER_ERROR}/$scores->{SCORED_SPEAKER};
+        $scores->{SPEAKER_ERROR}, percent ($scores->{SPEAKER_ERROR}, $scores->{SCORED_SPEAKER});
     printf "SPEAKER ERROR WORDS =%7d         (%5.1f percent of scored speaker words)\n",
-        $scores->{ERROR_WORDS}, 100*$scores->{ERROR_WORDS}/$scores->{SCORED_WORDS};
+        $scores->{ERROR_WORDS}, percent ($scores->{ERROR_WORDS}, $scores->{SCORED_WORDS});
     print "---------------------------------------------\n";
 #    if ($condition eq "ALL") {
 #      printf " OVERALL SPEAKER DIARIZATION ERROR = %.2f percent of scored speaker time\n",
@@ -2404,8 +2413,8 @@ sub print_sd_scores {
 #	    $scores->{SCORED_SPEAKER};
 #    } else {
       printf " OVERALL SPEAKER DIARIZATION ERROR = %.2f percent of scored speaker time  %s\n",
-         100*($scores->{MISSED_SPEAKER} + $scores->{FALARM_SPEAKER} + $scores->{SPEAKER_ERROR})/
-    	    $scores->{SCORED_SPEAKER}, "`($condition)";
+         percent ($scores->{MISSED_SPEAKER} + $scores->{FALARM_SPEAKER} + $scores->{SPEAKER_ERROR},
+		  $scores->{SCORED_SPEAKER}), "`($condition)";
 #    }
     print "---------------------------------------------\n";
     printf " Speaker type confusion matrix -- speaker weighted\n";
-- 
2.43.0


From 91d6888a2ad52bc454d0aeb710118a6c821f8ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:25 +0000
Subject: [PATCH 083/152] fix: md-eval: missed and false alarm times by speaker
 type do not depend on the order of the types

---
 src/md-eval/md-eval.pl | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/md-eval/md-eval.pl b/src/md-eval/md-eval.pl
index 6dc9a22..a56eb9d 100755
--- a/src/md-eval/md-eval.pl
+++ b/src/md-eval/md-eval.pl
@@ -1998,18 +1998,18 @@ sub score_speaker_segments {
 	    $num_types{SYS}{$sys_type}++;
 	}
 	foreach $ref_type (keys %{$num_types{REF}}) {
-	    $nref = $num_types{REF}{$ref_type};
-	    $type_stats{REF}{$ref_type} += $nref*$seg_dur;
+	    my $nref_type = $num_types{REF}{$ref_type};
+	    $type_stats{REF}{$ref_type} += $nref_type*$seg_dur;
 	    foreach $sys_type (keys %{$num_types{SYS}}) {
-		$nsys = $num_types{SYS}{$sys_type};
-		$type_stats{JOINT}{$ref_type}{$sys_type} += min($nref,$nsys)*$seg_dur;
+		my $nsys_type = $num_types{SYS}{$sys_type};
+		$type_stats{JOINT}{$ref_type}{$sys_type} += min($nref_type,$nsys_type)*$seg_dur;
 	    }
-	    $type_stats{JOINT}{$ref_type}{$miss_name} += max($nref-$nsys,0)*$seg_dur;
+	    $type_stats{JOINT}{$ref_type}{$miss_name} += max($nref_type-$nsys,0)*$seg_dur;
 	}
 	foreach $sys_type (keys %{$num_types{SYS}}) {
-	    $nsys = $num_types{SYS}{$sys_type};
-	    $type_stats{SYS}{$sys_type} += $nsys*$seg_dur;
-	    $type_stats{JOINT}{$fa_name}{$sys_type} += max($nsys-$nref,0)*$seg_dur;
+	    my $nsys_type = $num_types{SYS}{$sys_type};
+	    $type_stats{SYS}{$sys_type} += $nsys_type*$seg_dur;
+	    $type_stats{JOINT}{$fa_name}{$sys_type} += max($nsys_type-$nref,0)*$seg_dur;
 	}
     }
     $stats->{TYPE}{TIME} = {%type_stats};
-- 
2.43.0


From 22f41062408f44dc9133b14a9cca8b3e14c0036a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:25 +0000
Subject: [PATCH 084/152] fix: md-eval: strip only the file type from the file
 names in a UEM file

---
 src/md-eval/md-eval.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/md-eval/md-eval.pl b/src/md-eval/md-eval.pl
index a56eb9d..5d6a6c0 100755
--- a/src/md-eval/md-eval.pl
+++ b/src/md-eval/md-eval.pl
@@ -453,7 +453,7 @@ sub get_uem_data {
 	$seg->{TBEG} = lc shift @fields;
 	$seg->{TEND} = lc shift @fields;
         $seg->{FILE} =~ s/.*\/// if (! $keepDirectoryPath);      #strip directory 
-        $seg->{FILE} =~ s/\.[^.]*//;   #strip file type
+        $seg->{FILE} =~ s/\.[^.]*$//;  #strip file type
         $seg->{TBEG} =~ s/[^0-9\.]//g; #strip non-numeric (commas)
         $seg->{TEND} =~ s/[^0-9\.]//g; #strip non-numeric (commas)
 	push @{$data{$seg->{FILE}}{$seg->{CHNL}}}, $seg;
-- 
2.43.0


From 762fb7ddf10eccdf17cd140867f98fa839e17960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:25 +0000
Subject: [PATCH 085/152] fix: md-eval: report files and channels whose name
 contains ALL

---
 src/md-eval/md-eval.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/md-eval/md-eval.pl b/src/md-eval/md-eval.pl
index 5d6a6c0..073bf2d 100755
--- a/src/md-eval/md-eval.pl
+++ b/src/md-eval/md-eval.pl
@@ -2356,7 +2356,7 @@ sub sd_performance_analysis {
     }
 
     foreach my $condition (sort keys %cum_scores) {
-	print_sd_scores ($condition, $cum_scores{$condition}) if $condition !~ /ALL/;
+	print_sd_scores ($condition, $cum_scores{$condition}) if $condition ne "ALL";
     }
     print_sd_scores ("ALL", $cum_scores{ALL});
 }
-- 
2.43.0


From 70f1fb51d186a5c74c58cc1df316a3d3d9bcffd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:09 +0000
Subject: [PATCH 086/152] fix: md-eval: rounding of an end time does not extend
 a no-score zone into the preceding turn

---
 src/md-eval/md-eval.pl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/md-eval/md-eval.pl b/src/md-eval/md-eval.pl
index 073bf2d..9319bc1 100755
--- a/src/md-eval/md-eval.pl
+++ b/src/md-eval/md-eval.pl
@@ -2156,8 +2156,8 @@ sub add_exclusion_zones_to_uem {
 	    push @ns_events, {TYPE => "NSZ", EVENT => "END", TIME => $token->{TEND}};
 	}
     }
-    @ns_events = sort {($a->{TIME} < $b->{TIME} ? -1 :
-			($a->{TIME} > $b->{TIME} ? 1 :
+    @ns_events = sort {($a->{TIME} < $b->{TIME}-$epsilon ? -1 :
+			($a->{TIME} > $b->{TIME}+$epsilon ? 1 :
 			 $a->{EVENT} eq "BEG"))} @ns_events;
 
 #create noscore zones
-- 
2.43.0


From f4f85ead201f038f9b864d1eaf5de2f27ba90efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:51 +0000
Subject: [PATCH 087/152] fix: rttmValidator: compare speaker and file names as
 names, not as patterns

---
 src/rttmValidator/rttmValidator.pl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rttmValidator/rttmValidator.pl b/src/rttmValidator/rttmValidator.pl
index 74c5aa5..dc21327 100755
--- a/src/rttmValidator/rttmValidator.pl
+++ b/src/rttmValidator/rttmValidator.pl
@@ -208,7 +208,7 @@ sub check_syntax_errors {
 			    # This won't work if people concat all the files into one.
 			    # Make it a warning instead
 			    #
-			    if ($checkFileName && $obj->{SRC} !~ /^$file$/i) {
+			    if ($checkFileName && lc($obj->{SRC}) ne lc($file)) {
 				print "WARNING: Source field '$obj->{SRC}' doesn't match the input file's base filename '$file'; see field (2) in $obj->{LOC}\n";
 			    }
 			    
@@ -822,7 +822,7 @@ sub find_speaker {
 	    foreach my $spkr (sort keys %{$data->{$src}{$chnl}}) {
 		foreach my $obj (@{$data->{$src}{$chnl}{$spkr}{'SPKR-INFO'}}) {
 		    $curr_spkr = $obj->{SPKR};
-		    if ($src_spkr =~ /^$curr_spkr$/i) {
+		    if (lc($src_spkr) eq lc($curr_spkr)) {
 			return 1;
 		    }
 		}
-- 
2.43.0


From 55f4276a95a6514f453fb923e12312858e680968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:51 +0000
Subject: [PATCH 088/152] fix: rttmValidator: NON-SPEECH objects need no
 declared speaker

---
 src/rttmValidator/rttmValidator.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rttmValidator/rttmValidator.pl b/src/rttmValidator/rttmValidator.pl
index dc21327..2b4ab8a 100755
--- a/src/rttmValidator/rttmValidator.pl
+++ b/src/rttmValidator/rttmValidator.pl
@@ -375,7 +375,7 @@ sub check_syntax_errors {
 			    #
 			    if( ! $opt_p )
 			    {
-					if ($type !~ /(SPKR-INFO|NOSCORE|NONSPEECH)/i && ! find_speaker($obj->{SPKR}, $data) ) {
+					if ($type !~ /(SPKR-INFO|NOSCORE|NON-SPEECH)/i && ! find_speaker($obj->{SPKR}, $data) ) {
 					print "ERROR: Speaker $obj->{SPKR} doesn't match any of the speaker IDs in SPKR-INFO objects; see $obj->{LOC}\n";
 					$pass = 0;
 				}
-- 
2.43.0


From 0f6321bbf35adf00fc15e50efd87602125b762c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:51 +0000
Subject: [PATCH 089/152] fix: rttmValidator: apply the logic checks to types
 in lower case too

---
 src/rttmValidator/rttmValidator.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rttmValidator/rttmValidator.pl b/src/rttmValidator/rttmValidator.pl
index 2b4ab8a..56c4e30 100755
--- a/src/rttmValidator/rttmValidator.pl
+++ b/src/rttmValidator/rttmValidator.pl
@@ -149,7 +149,7 @@ sub get_rttm_data {
 	    undef $obj;
 	    $obj->{FIELD_COUNT} = scalar (@fields);
             $obj->{LOC} = "line $line_num";
-	    $obj->{TYPE} = shift @fields;
+	    $obj->{TYPE} = uc shift @fields;
 	    $obj->{SRC} = shift @fields;
 	    $obj->{CHNL} = shift @fields;
 	    $obj->{TBEG} = shift @fields;
-- 
2.43.0


From 467f3f1eba54787afc2252c1a3f03f1aa3a1d8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:51 +0000
Subject: [PATCH 090/152] fix: rttmValidator: a start time or confidence that
 merely contains <NA> is not <NA>

---
 src/rttmValidator/rttmValidator.pl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rttmValidator/rttmValidator.pl b/src/rttmValidator/rttmValidator.pl
index 56c4e30..0390bcf 100755
--- a/src/rttmValidator/rttmValidator.pl
+++ b/src/rttmValidator/rttmValidator.pl
@@ -226,7 +226,7 @@ sub check_syntax_errors {
 			    # else the start time must be a number and is non-negative
 			    #
 			    if ($obj->{TYPE} =~ /SPKR-INFO/i) {
-				if ($obj->{TBEG} !~ /<NA>/i) {
+				if ($obj->{TBEG} !~ /^<NA>$/i) {
 				    print "ERROR: $obj->{TYPE} should not have any start time; see field (4) in $obj->{LOC}\n";
 				    $pass = 0;
 				}
@@ -360,7 +360,7 @@ sub check_syntax_errors {
 			    
 			    # make sure that the confidence field is a number it's from 0-1 else it's <NA>
 			    #
-			    if ($obj->{CONF} !~ /<NA>/) {
+			    if ($obj->{CONF} !~ /^<NA>$/) {
 				if ($obj->{CONF} !~ /^(\-{0,1}\d+\.?\d*|\-{0,1}\.\d+)$/) {
 				    print "ERROR: Expected confidence value to be a number or <NA>; see field (9) in $obj->{LOC}\n";
 				    $pass = 0;
-- 
2.43.0


From 4496e781aaa7dcaa5cf5c6cc1210458a0ff3e85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:51 +0000
Subject: [PATCH 091/152] fix: rttmValidator: accept an EDIT that ends where
 its SU ends

---
 src/rttmValidator/rttmValidator.pl | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/rttmValidator/rttmValidator.pl b/src/rttmValidator/rttmValidator.pl
index 0390bcf..2531404 100755
--- a/src/rttmValidator/rttmValidator.pl
+++ b/src/rttmValidator/rttmValidator.pl
@@ -853,17 +853,17 @@ sub extract_mde_of_type {
 	    }
 	}
     } elsif ($mde_type =~ /IP/i) {
+	# an IP between two adjacent SUs belongs to the first one if it ends an EDIT and to the
+	# second one if it begins a FILLER
+	#
+	my $prev_su = $su_pos > 0 ? $sus->[$su_pos - 1] : undef;
+	my $follows_su = $prev_su && equal_to($prev_su->{TBEG} + $prev_su->{TDUR}, $su_tbeg);
 	foreach my $obj (@$data) {
-	    if ( (greater_than($obj->{TBEG}, $su_tbeg) && less_than($obj->{TBEG}, $su_tend) ) ||
-		 equal_to($obj->{TBEG}, $su_tbeg) ) {
+	    my $ends_edit = $obj->{STYPE} !~ /filler/i;
+	    if ( (greater_than($obj->{TBEG}, $su_tbeg) && less_than($obj->{TBEG}, $su_tend)) ||
+		 (equal_to($obj->{TBEG}, $su_tbeg) && ! ($follows_su && $ends_edit)) ||
+		 (equal_to($obj->{TBEG}, $su_tend) && $ends_edit) ) {
 		push (@ip_time, [ $obj->{TBEG}, uc($obj->{STYPE}), $obj->{TBEG}, $obj->{LOC}, 0 ]);
-	    } elsif ( equal_to($obj->{TBEG}, $su_tend) ) {
-		if ($su_pos + 1 <= scalar($sus)) {
-		    if ( equal_to($su_tend, $sus->[$su_pos + 1]->{TBEG}) &&
-			 $obj->{STYPE} !~ /filler/i ) {
-			push (@ip_time, [ $obj->{TBEG}, uc($obj->{STYPE}), $obj->{TBEG}, $obj->{LOC}, 0 ]);
-		    }
-		}
 	    }
 	}
     }
-- 
2.43.0


From 7abffb591334e04d17c16de685f5857673bb7a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:51 +0000
Subject: [PATCH 092/152] fix: stmValidator: an optionally deletable
 contraction needs its closing parenthesis

---
 src/stmValidator/STMList.pm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stmValidator/STMList.pm b/src/stmValidator/STMList.pm
index 5465d34..7931b82 100644
--- a/src/stmValidator/STMList.pm
+++ b/src/stmValidator/STMList.pm
@@ -86,7 +86,7 @@ sub validateEnglishText{
 	    print "Token: /$token/ pass Rule 5\n" if ($dbg == 1);
 	} elsif ($token =~ /^([a-z]*-)*[a-z]+('(d|s|t|re|ll|m|ve|))*$/i){  ## contractions
 	    print "Token: /$token/ pass Rule 5a\n" if ($dbg == 1);
-	} elsif ($token =~ /^\(([a-z]*-)*[a-z]+('(d|s|t|re|ll|m|ve|))\)*$/i){  ## contractions
+	} elsif ($token =~ /^\(([a-z]*-)*[a-z]+('(d|s|t|re|ll|m|ve|))*\)$/i){  ## contractions
 	    print "Token: /$token/ pass Rule 6\n" if ($dbg == 1);
 	} elsif ($token =~ /^(o'\S+|d'etre)$/i){               ## Special contractions
 	    print "Token: /$token/ pass Rule 7\n" if ($dbg == 1);
-- 
2.43.0


From 47029a42bc50ed436bb9ed6f4ca2ad4a0005586d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:51 +0000
Subject: [PATCH 093/152] fix: stmValidator: check all characters of a
 non-English word, not only the first

---
 src/stmValidator/STMList.pm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stmValidator/STMList.pm b/src/stmValidator/STMList.pm
index 7931b82..a69f0ae 100644
--- a/src/stmValidator/STMList.pm
+++ b/src/stmValidator/STMList.pm
@@ -107,7 +107,7 @@ sub validateEnglishText{
 sub validateNonEnglishText{
     my ($self, $text, $language, $verbosity) = @_;
     my $err = 0;
-    my $punct = "\!\@\#\$\^\&\*\(\)\`\~\_\+\=\{\[\}\]\|\\\<\,\>\.\?\/\-";
+    my $punct = quotemeta("\!\@\#\$\^\&\*\(\)\`\~\_\+\=\{\[\}\]\|\\\<\,\>\.\?\/\-");
     foreach my $token (split(/\s+/, $text)){
 	if ($token =~ /^ignore_time_segment_in_scoring$/i){
 	    ;
-- 
2.43.0


From be8aa41a2a07b6cd50ac2bfbc15ef72974bd886c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:27 +0000
Subject: [PATCH 094/152] fix: rttmSort: records that begin together keep their
 order and are sorted by type however the time is written

---
 src/rttmSort/rttmSort.pl | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/rttmSort/rttmSort.pl b/src/rttmSort/rttmSort.pl
index d9f5394..9706537 100755
--- a/src/rttmSort/rttmSort.pl
+++ b/src/rttmSort/rttmSort.pl
@@ -36,14 +36,15 @@ my %stm_file;
 	     $spkrinfo{$2." ".$8}{conf} = $9;
 	     $spkrinfo{$2." ".$8}{line} = $. . " $_";
 	 } else {
-	     $stm_file{$2}{$3}{$4}{$.}{type} = $1;
-	     $stm_file{$2}{$3}{$4}{$.}{beg_time} = $4;
-	     $stm_file{$2}{$3}{$4}{$.}{end_time} = $5;
-	     $stm_file{$2}{$3}{$4}{$.}{token} = $6;
-	     $stm_file{$2}{$3}{$4}{$.}{subtype} = $7;
-	     $stm_file{$2}{$3}{$4}{$.}{speaker} = $8;
-	     $stm_file{$2}{$3}{$4}{$.}{conf} = $9;
-	     $stm_file{$2}{$3}{$4}{$.}{line} = $. . " $_";
+	     my $beg = $4 eq "<NA>" ? $4 : $4 + 0;
+	     $stm_file{$2}{$3}{$beg}{$.}{type} = $1;
+	     $stm_file{$2}{$3}{$beg}{$.}{beg_time} = $4;
+	     $stm_file{$2}{$3}{$beg}{$.}{end_time} = $5;
+	     $stm_file{$2}{$3}{$beg}{$.}{token} = $6;
+	     $stm_file{$2}{$3}{$beg}{$.}{subtype} = $7;
+	     $stm_file{$2}{$3}{$beg}{$.}{speaker} = $8;
+	     $stm_file{$2}{$3}{$beg}{$.}{conf} = $9;
+	     $stm_file{$2}{$3}{$beg}{$.}{line} = $. . " $_";
 	 }
      } elsif (/^;;/) {
 	 #nothing
@@ -69,7 +70,8 @@ foreach my $key_filename (sort keys %stm_file) {
     foreach my $key_channel (sort keys %{$stm_file{$key_filename}}) {
 	foreach my $key_begtime (sort cmp_float keys %{$stm_file{$key_filename}{$key_channel}}) {
 	    foreach my $line (sort {$sort_order{$stm_file{$key_filename}{$key_channel}{$key_begtime}{$a}{type}} <=>
-					$sort_order{$stm_file{$key_filename}{$key_channel}{$key_begtime}{$b}{type}}} 
+					$sort_order{$stm_file{$key_filename}{$key_channel}{$key_begtime}{$b}{type}} ||
+					$a <=> $b}
 			      keys %{$stm_file{$key_filename}{$key_channel}{$key_begtime}}) {
 		print "$stm_file{$key_filename}{$key_channel}{$key_begtime}{$line}{type} ";
 		print "$key_filename $key_channel ";
-- 
2.43.0


From 243cc61dd85efe814237c3ff9b578aed7f08e1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:27 +0000
Subject: [PATCH 095/152] fix: rttmSort: accept NO_RT_METADATA and refuse what
 is only part of a record

---
 src/rttmSort/rttmSort.pl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rttmSort/rttmSort.pl b/src/rttmSort/rttmSort.pl
index 9706537..22b1719 100755
--- a/src/rttmSort/rttmSort.pl
+++ b/src/rttmSort/rttmSort.pl
@@ -6,6 +6,7 @@ use Data::Dumper;
 my %sort_order = ("SPKRINFO"       => 0,
 		  "NOSCORE"         =>  1,
 		  "NORTMETADATA"  =>  2,
+		  "NO_RT_METADATA"  =>  2,
 		  "SEGMENT"         =>  3,
 		  "SPEAKER"         =>  4,
 		  "SU"              =>  5,
@@ -25,7 +26,7 @@ my %stm_file;
      my $wrdExp = '[\]\[\w%\{'."\\'".'\<\>.-]+';
      $wrdExp = '[^\s]+';
      my $txtExp = "$wrdExp|\\($wrdExp\\)|<NA>";
-     if (/(SPKR-INFO|SEGMENT|LEXEME|NON-LEX|CB|SU|EDIT|FILLER|IP|NOSCORE|SPEAKER|NORTMETADATA|NON-SPEECH|A\/P)\s+(\S+)\s+(\d+)\s+(\d*\.?\d+|<NA>)\s+(\d*\.?\d+|<NA>)\s+($txtExp)\s+([\w&-]+|<NA>)\s+(\S+|<NA>)\s+(\d*\.?\d+|<NA>)/) {
+     if (/^\s*(SPKR-INFO|SEGMENT|LEXEME|NON-LEX|CB|SU|EDIT|FILLER|IP|NOSCORE|SPEAKER|NO_RT_METADATA|NORTMETADATA|NON-SPEECH|A\/P)\s+(\S+)\s+(\d+)\s+(\d*\.?\d+|<NA>)\s+(\d*\.?\d+|<NA>)\s+($txtExp)\s+([\w&-]+|<NA>)\s+(\S+|<NA>)\s+(\d*\.?\d+|<NA>)(?:\s+\S+)?\s*$/) {
 	 if ($1 eq "SPKR-INFO") {
 #	     print "--$2  $8--\n";
 	     die "Error: spkrinfo exists for '$2 $8'" if (exists($spkrinfo{$2." ".$8}));
-- 
2.43.0


From 78d222733399946b9cd7a541a1cf37edbe6955e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:27 +0000
Subject: [PATCH 096/152] fix: rttmSort: a speaker may be declared on more than
 one channel

---
 src/rttmSort/rttmSort.pl | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/rttmSort/rttmSort.pl b/src/rttmSort/rttmSort.pl
index 22b1719..5a4fe01 100755
--- a/src/rttmSort/rttmSort.pl
+++ b/src/rttmSort/rttmSort.pl
@@ -29,13 +29,13 @@ my %stm_file;
      if (/^\s*(SPKR-INFO|SEGMENT|LEXEME|NON-LEX|CB|SU|EDIT|FILLER|IP|NOSCORE|SPEAKER|NO_RT_METADATA|NORTMETADATA|NON-SPEECH|A\/P)\s+(\S+)\s+(\d+)\s+(\d*\.?\d+|<NA>)\s+(\d*\.?\d+|<NA>)\s+($txtExp)\s+([\w&-]+|<NA>)\s+(\S+|<NA>)\s+(\d*\.?\d+|<NA>)(?:\s+\S+)?\s*$/) {
 	 if ($1 eq "SPKR-INFO") {
 #	     print "--$2  $8--\n";
-	     die "Error: spkrinfo exists for '$2 $8'" if (exists($spkrinfo{$2." ".$8}));
-	     $spkrinfo{$2." ".$8}{file} = $2;
-	     $spkrinfo{$2." ".$8}{chan} = $3;
-	     $spkrinfo{$2." ".$8}{gender} = $7;
-	     $spkrinfo{$2." ".$8}{spkr} = $8;
-	     $spkrinfo{$2." ".$8}{conf} = $9;
-	     $spkrinfo{$2." ".$8}{line} = $. . " $_";
+	     die "Error: spkrinfo exists for '$2 $3 $8'" if (exists($spkrinfo{"$2 $3 $8"}));
+	     $spkrinfo{"$2 $3 $8"}{file} = $2;
+	     $spkrinfo{"$2 $3 $8"}{chan} = $3;
+	     $spkrinfo{"$2 $3 $8"}{gender} = $7;
+	     $spkrinfo{"$2 $3 $8"}{spkr} = $8;
+	     $spkrinfo{"$2 $3 $8"}{conf} = $9;
+	     $spkrinfo{"$2 $3 $8"}{line} = $. . " $_";
 	 } else {
 	     my $beg = $4 eq "<NA>" ? $4 : $4 + 0;
 	     $stm_file{$2}{$3}{$beg}{$.}{type} = $1;
-- 
2.43.0


From 2f88e812fbd728559a402ab27762523de4a3b871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:27 +0000
Subject: [PATCH 097/152] fix: rttm2ctm: fail when the input cannot be read

---
 src/rttm2ctm/rttm2ctm.pl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rttm2ctm/rttm2ctm.pl b/src/rttm2ctm/rttm2ctm.pl
index 2312ea3..2c61c67 100755
--- a/src/rttm2ctm/rttm2ctm.pl
+++ b/src/rttm2ctm/rttm2ctm.pl
@@ -30,8 +30,8 @@ my %sort_order = ("SPKRINFO"       => 0,
 my %spkrinfo;
 my %stm_file;
 
-open IN, "$in" || die "Failed to open $in";
-open OUT, ">$out" || die "Failed to open $out";
+open(IN, "$in") || die "Failed to open $in";
+open(OUT, ">$out") || die "Failed to open $out";
 
  while (<IN>) {
      next if ($_ =~ /;;/);
-- 
2.43.0


From 6da0b088e1a831b1a12ffc352d5d4321faaf8b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:27 +0000
Subject: [PATCH 098/152] fix: rttm2ctm: accept NO_RT_METADATA and refuse what
 is only part of a record

---
 src/rttm2ctm/rttm2ctm.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rttm2ctm/rttm2ctm.pl b/src/rttm2ctm/rttm2ctm.pl
index 2c61c67..e935a44 100755
--- a/src/rttm2ctm/rttm2ctm.pl
+++ b/src/rttm2ctm/rttm2ctm.pl
@@ -38,7 +38,7 @@ open(OUT, ">$out") || die "Failed to open $out";
      my $wrdExp = '[\]\[\S\%\{'."\\'".'\<\>.-]+';
      my $txtExp = "$wrdExp|\\($wrdExp\\)|<NA>";
 #     my $txtExp = ".*|<NA>";
-     if (/(SPKR-INFO|SEGMENT|LEXEME|NON-LEX|CB|SU|EDIT|FILLER|IP|NOSCORE|SPEAKER|NORTMETADATA|NON-SPEECH|A\/P)\s+(\S+)\s+(\d+)\s+(\d*\.?\d+|<NA>)\s+(\d*\.?\d+|<NA>)\s+($txtExp)\s+([\w&-]+|<NA>)\s+(\S+|<NA>)\s+(\d*\.?\d+|<NA>)/) {
+     if (/^\s*(SPKR-INFO|SEGMENT|LEXEME|NON-LEX|CB|SU|EDIT|FILLER|IP|NOSCORE|SPEAKER|NO_RT_METADATA|NORTMETADATA|NON-SPEECH|A\/P)\s+(\S+)\s+(\d+)\s+(\d*\.?\d+|<NA>)\s+(\d*\.?\d+|<NA>)\s+($txtExp)\s+([\w&-]+|<NA>)\s+(\S+|<NA>)\s+(\d*\.?\d+|<NA>)(?:\s+(\S+))?\s*$/) {
 #     print "($1, $2, $3, $4, $5, $6, $7, $8, $9, (defined($10) ? $10 : undef))\n";
        my ($type, $file, $chan, $beg, $dur, $token, $stype, $spkr, $conf, $slat) = ($1, $2, $3, $4, $5, $6, $7, $8, $9, (defined($10) ? $10 : undef));
        if ($1 eq "LEXEME" && $7 eq "lex"){
-- 
2.43.0


From cb23fcae447fc2d22880f79bfe2fd541970f625c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:27 +0000
Subject: [PATCH 099/152] fix: rttm2ctm: leave out a confidence that is not
 known

---
 src/rttm2ctm/rttm2ctm.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rttm2ctm/rttm2ctm.pl b/src/rttm2ctm/rttm2ctm.pl
index e935a44..c3775d8 100755
--- a/src/rttm2ctm/rttm2ctm.pl
+++ b/src/rttm2ctm/rttm2ctm.pl
@@ -42,7 +42,7 @@ open(OUT, ">$out") || die "Failed to open $out";
 #     print "($1, $2, $3, $4, $5, $6, $7, $8, $9, (defined($10) ? $10 : undef))\n";
        my ($type, $file, $chan, $beg, $dur, $token, $stype, $spkr, $conf, $slat) = ($1, $2, $3, $4, $5, $6, $7, $8, $9, (defined($10) ? $10 : undef));
        if ($1 eq "LEXEME" && $7 eq "lex"){
-         print OUT "$file $chan $beg $dur $token $conf\n";
+         print OUT "$file $chan $beg $dur $token".($conf eq "<NA>" ? "" : " $conf")."\n";
        }
      } else {
   	   die "malformed line $.\n--> $_\n";
-- 
2.43.0


From 42c43f7748caec6e22ed2890c2919b9a87f81e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:27 +0000
Subject: [PATCH 100/152] fix: rttmSmooth: do not join turns on different
 channels

---
 src/rttmSmooth/rttmSmooth.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rttmSmooth/rttmSmooth.pl b/src/rttmSmooth/rttmSmooth.pl
index ffa974a..0892adc 100755
--- a/src/rttmSmooth/rttmSmooth.pl
+++ b/src/rttmSmooth/rttmSmooth.pl
@@ -20,7 +20,7 @@ while (<STDIN>){
 	next;
     }
     my @a = split;
-    push @{ $data{$a[1]." ".$a[7]}{$a[0]} }, \@a;
+    push @{ $data{$a[1]." ".$a[2]." ".$a[7]}{$a[0]} }, \@a;
 }
 #print Dumper(\%data);
 #exit;
-- 
2.43.0


From e7c2b1505c20923a5f37510baedf7a6febdc565c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:27 +0000
Subject: [PATCH 101/152] fix: rttmSmooth: write the records in the same order
 on every run

---
 src/rttmSmooth/rttmSmooth.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rttmSmooth/rttmSmooth.pl b/src/rttmSmooth/rttmSmooth.pl
index 0892adc..874d59e 100755
--- a/src/rttmSmooth/rttmSmooth.pl
+++ b/src/rttmSmooth/rttmSmooth.pl
@@ -28,7 +28,7 @@ my $max;
 foreach my $file(sort (keys %data)){
 #    print "PRocess $file\n";
     my @d;
-    foreach my $key(keys %{ $data{$file} }){
+    foreach my $key(sort keys %{ $data{$file} }){
 	next if ($key eq "SPEAKER");
 	@d = @{ $data{$file}{$key} };
 	for (my $i=0; $i<@d; $i++){
-- 
2.43.0


From f631235f5eaead35921619933ee47d946979ff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:27 +0000
Subject: [PATCH 102/152] fix: rttmSmooth: rounding does not decide whether a
 gap of the threshold is smoothed

---
 src/rttmSmooth/rttmSmooth.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rttmSmooth/rttmSmooth.pl b/src/rttmSmooth/rttmSmooth.pl
index 874d59e..a121da8 100755
--- a/src/rttmSmooth/rttmSmooth.pl
+++ b/src/rttmSmooth/rttmSmooth.pl
@@ -42,7 +42,7 @@ foreach my $file(sort (keys %data)){
 #	die "Error: Segments from the same speaker overlap. \n   ".
 #	    join(" $i: ", @{$d[$i]}). "\n   ".($i+1)." " join("  ".@{ $d[$i]})
 #	    if ($d[$i]->[3] + $d[$i]->[4] > $d[$i+1]->[3]);
-	if ($d[$i]->[3] + $d[$i]->[4] >= $d[$i+1]->[3] - $time){
+	if ($d[$i]->[3] + $d[$i]->[4] >= $d[$i+1]->[3] - $time - 1E-6){
 #	    print "   Smooth with next ".($d[$i]->[3] + $d[$i]->[4])." with ",( $d[$i+1]->[3] - $time)."\n";
 	    $max = $d[$i]->[3] + $d[$i]->[4];
 	    $max = $d[$i+1]->[3] + $d[$i+1]->[4] if ($max < $d[$i+1]->[3] + $d[$i+1]->[4]);
-- 
2.43.0


From 50758da57c7e00d32f363f7c213ec28a18a80ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:27 +0000
Subject: [PATCH 103/152] fix: spkr2sad: declare the speaker on every channel

---
 src/spkr2sad/spkr2sad.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spkr2sad/spkr2sad.pl b/src/spkr2sad/spkr2sad.pl
index 85c427a..ea7da32 100755
--- a/src/spkr2sad/spkr2sad.pl
+++ b/src/spkr2sad/spkr2sad.pl
@@ -11,7 +11,7 @@ while (<>){
 	print;
 	next;
     }
-    push @{ $data{$a[1]}{$a[0]} }, \@a;
+    push @{ $data{$a[1]." ".$a[2]}{$a[0]} }, \@a;
 }
 #print Dumper(\%data);
 my $max;
-- 
2.43.0


From 22067a03b4d162d566ed40afc5a44ac8b93abc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:27 +0000
Subject: [PATCH 104/152] fix: stm2rttm: smooth every segment, not only the
 first after a gap

---
 src/stm2rttm/stm2rttm.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stm2rttm/stm2rttm.pl b/src/stm2rttm/stm2rttm.pl
index 2377d86..4a1ad3c 100755
--- a/src/stm2rttm/stm2rttm.pl
+++ b/src/stm2rttm/stm2rttm.pl
@@ -107,7 +107,7 @@ foreach $spkr (keys %STM) {
 						$prev_seg->[$END_TIME] = $seg->[$END_TIME];
 						$prev_seg->[$TEXT] = $prev_seg->[$TEXT] . " " . $seg->[$TEXT];
 						splice (@{ $STM{$spkr}{$file}{$chan} }, $i, 1);
-						$i++;
+						$i--;
 				    } else {
 						$prev_seg = $seg;
 			    	}
-- 
2.43.0


From 826823433fdbd68987988af6dcd75f1fe6992594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:27 +0000
Subject: [PATCH 105/152] fix: stm2rttm: write the records in the same order on
 every run

---
 src/stm2rttm/stm2rttm.pl | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/stm2rttm/stm2rttm.pl b/src/stm2rttm/stm2rttm.pl
index 4a1ad3c..21aa5e8 100755
--- a/src/stm2rttm/stm2rttm.pl
+++ b/src/stm2rttm/stm2rttm.pl
@@ -118,9 +118,9 @@ foreach $spkr (keys %STM) {
 }
 
 # Output speaker info metadata
-foreach $spkr(keys %STM){
-	for $file (keys %{ $STM{$spkr} }){
-		for $chan (keys %{ $STM{$spkr}{$file} }){
+foreach $spkr(sort keys %STM){
+	for $file (sort keys %{ $STM{$spkr} }){
+		for $chan (sort keys %{ $STM{$spkr}{$file} }){
 	    	if ($spkr !~ /excluded_region/i) {
 				print "SPKR-INFO $file $chan <NA> <NA> <NA> $spkrInfo{$spkr} $spkr <NA>\n";
 	    	}
@@ -129,9 +129,9 @@ foreach $spkr(keys %STM){
 }
 
 # Output speaker turns
-foreach $spkr(keys %STM){
-	for $file (keys %{ $STM{$spkr} }){
-		for $chan (keys %{ $STM{$spkr}{$file} }){
+foreach $spkr(sort keys %STM){
+	for $file (sort keys %{ $STM{$spkr} }){
+		for $chan (sort keys %{ $STM{$spkr}{$file} }){
 	    	for $seg (@{ $STM{$spkr}{$file}{$chan} }){
 				$beg = $seg->[$START_TIME];
 				$end = $seg->[$END_TIME];
-- 
2.43.0


From 85ea6f445587f29ecde0721dbdb996a8f2f1194b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:51 +0000
Subject: [PATCH 106/152] fix: stm2rttm: rounding does not decide whether a gap
 of the threshold is smoothed

---
 src/stm2rttm/stm2rttm.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stm2rttm/stm2rttm.pl b/src/stm2rttm/stm2rttm.pl
index 21aa5e8..b3fd060 100755
--- a/src/stm2rttm/stm2rttm.pl
+++ b/src/stm2rttm/stm2rttm.pl
@@ -103,7 +103,7 @@ foreach $spkr (keys %STM) {
 					    join(" ",@{$prev_seg})."\n  ".
 					    join(" ",@{$seg});
 				    }
-				    if ($seg->[$START_TIME] - $prev_seg->[$END_TIME] <= $SMOOTHING_TIME) {
+				    if ($seg->[$START_TIME] - $prev_seg->[$END_TIME] <= $SMOOTHING_TIME + 1E-6) {
 						$prev_seg->[$END_TIME] = $seg->[$END_TIME];
 						$prev_seg->[$TEXT] = $prev_seg->[$TEXT] . " " . $seg->[$TEXT];
 						splice (@{ $STM{$spkr}{$file}{$chan} }, $i, 1);
-- 
2.43.0


From 3625acb9aab70670563444e1937f096a7fbf88ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:51 +0000
Subject: [PATCH 107/152] fix: mergectm2rttm: keep words and turns that begin
 at the same time

---
 src/mergectm2rttm/mergectm2rttm.pl | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/mergectm2rttm/mergectm2rttm.pl b/src/mergectm2rttm/mergectm2rttm.pl
index 0e66b88..2ab3e32 100755
--- a/src/mergectm2rttm/mergectm2rttm.pl
+++ b/src/mergectm2rttm/mergectm2rttm.pl
@@ -68,7 +68,7 @@ sub loadRTTMFile
 		
 		if(uc($type) eq "SPEAKER")
 		{
-			push( @{ $rttmhash->{DATA}{$file}{$chnl}{$tbeg} }, ($tbeg, $tdur, $ortho, $stype, $spkrname, $conf));
+			push( @{ $rttmhash->{DATA}{$file}{$chnl} }, [ ($tbeg, $tdur, $ortho, $stype, $spkrname, $conf) ]);
 		}
 	}
 	
@@ -101,7 +101,7 @@ sub loadCTMFile
 		{
 			my $mid = sprintf("%.4f", $tbeg+$tdur/2);
 									
-		    push( @{ $ctmhash->{$file}{$chnl}{$tbeg} }, ($tbeg, $tdur, $ortho, $stype, $conf, $mid));
+		    push( @{ $ctmhash->{$file}{$chnl} }, [ ($tbeg, $tdur, $ortho, $stype, $conf, $mid) ]);
 		}
 	}
 	
@@ -113,15 +113,13 @@ sub findSpeaker
 	my ($rttmhash, $file, $chnl, $mid) = @_;
 	my @listspkr;
 	
-	foreach my $tbeg(sort keys %{ $rttmhash->{DATA}{$file}{$chnl} })
+	foreach my $seg(@{ $rttmhash->{DATA}{$file}{$chnl} })
 	{
-		my $bt = @{ $rttmhash->{DATA}{$file}{$chnl}{$tbeg} }[0];
-		my $dur = @{ $rttmhash->{DATA}{$file}{$chnl}{$tbeg} }[1];
-		my $spkrname = @{ $rttmhash->{DATA}{$file}{$chnl}{$tbeg} }[4];
+		my ($bt, $dur, $spkrname) = @{ $seg }[0, 1, 4];
 		
 		if( ($bt <= $mid) && ($mid <= sprintf("%.3f", $bt+$dur) ) )
 		{
-			push( @listspkr, [ ($spkrname, $tbeg) ] );
+			push( @listspkr, [ ($spkrname, $bt) ] );
 		}
 	}
 	
@@ -141,18 +139,18 @@ sub MergedData
 	
 	if (exists($ctmhash->{$file}{$chnl}) )
 	{
-		foreach my $tbeg(sort {$a <=> $b} keys %{ $ctmhash->{$file}{$chnl} })
+		foreach my $word(sort {$a->[0] <=> $b->[0]} @{ $ctmhash->{$file}{$chnl} })
 		{
-			my $mid = $ctmhash->{$file}{$chnl}{$tbeg}[5];
+			my $mid = $word->[5];
 		    my $spkrtbeg = findSpeaker($rttmhash, $file, $chnl, $mid);
 		    
 		    if($spkrtbeg)
 		    {
-		    	my $ctmbeg = $ctmhash->{$file}{$chnl}{$tbeg}[0];
-		    	my $ctmdur = $ctmhash->{$file}{$chnl}{$tbeg}[1];
-		    	my $ctmortho = $ctmhash->{$file}{$chnl}{$tbeg}[2];
-		    	my $ctmstype = $ctmhash->{$file}{$chnl}{$tbeg}[3];
-		    	my $ctmconf = $ctmhash->{$file}{$chnl}{$tbeg}[4];
+		    	my $ctmbeg = $word->[0];
+		    	my $ctmdur = $word->[1];
+		    	my $ctmortho = $word->[2];
+		    	my $ctmstype = $word->[3];
+		    	my $ctmconf = $word->[4];
 		    	my $ctmspkr = $spkrtbeg->[0];
 		    	
 		    	print OUTPUT "SPEAKER $file $chnl $ctmbeg $ctmdur <NA> <NA> $ctmspkr <NA>\n";
-- 
2.43.0


From 95f051a5963d97715711ed249f37aebbcde909f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:51 +0000
Subject: [PATCH 108/152] fix: mergectm2rttm: words without a type are words

---
 src/mergectm2rttm/mergectm2rttm.pl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mergectm2rttm/mergectm2rttm.pl b/src/mergectm2rttm/mergectm2rttm.pl
index 2ab3e32..ce285f2 100755
--- a/src/mergectm2rttm/mergectm2rttm.pl
+++ b/src/mergectm2rttm/mergectm2rttm.pl
@@ -97,6 +97,10 @@ sub loadCTMFile
 		
 		my ($file, $chnl, $tbeg, $tdur, $ortho, $conf, $stype, $spkrname) = split(/\s+/,$_,8);
 		
+		# the confidence and the type are optional
+		$conf = "<NA>" if (! defined($conf));
+		$stype = "lex" if (! defined($stype));
+		
 		if($stype eq "lex")
 		{
 			my $mid = sprintf("%.4f", $tbeg+$tdur/2);
-- 
2.43.0


From efa766a8b4ab902263912b75b95af830832ec11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:33 +0000
Subject: [PATCH 109/152] fix: sc_stats: grange2 graphs do not limit the length
 of the file names or the number of systems and speakers

---
 src/sclite/range.c | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/sclite/range.c b/src/sclite/range.c
index 2d36a5b..e04b608 100644
--- a/src/sclite/range.c
+++ b/src/sclite/range.c
@@ -470,18 +470,20 @@ static void print_gnu_range_graph2(RANK *rank, char *percent_desc, char *testnam
     int b,t;
     FILE *fp_dat, *fp_mean, *fp_plt, *fp_median;
     double sum;
-    char mean_name[50], dat_name[50], plt_name[50], basename[50];
-    char median_name[50];
+    char *mean_name, *dat_name, *plt_name, *basename;
+    char *median_name, *fmt;
     double *pctt, *rnkk;
     int *ind;
 
     alloc_singarr(pctt,MAX( rank->n_blk , rank->n_trt ),double);
     alloc_singarr(rnkk,MAX( rank->n_blk , rank->n_trt ),double);
     alloc_singarr(ind,MAX( rank->n_blk , rank->n_trt ),int);
+    /* two %lf, and a %*s for each column skipped */
+    alloc_singarr(fmt,3 * MAX( rank->n_blk , rank->n_trt ) + 7,char);
 
-    sprintf(basename,"%s%s",(strcmp(base,"-")==0) ? "STATS" : base,
-	    (for_blks) ? ".spk" : ".sys");
-    sprintf(dat_name,"%s%s",basename,".dat");
+    basename = (char *)TEXT_strdup((TEXT *)rsprintf("%s%s",(strcmp(base,"-")==0) ? "STATS" : base,
+	    (for_blks) ? ".spk" : ".sys"));
+    dat_name = (char *)TEXT_strdup((TEXT *)rsprintf("%s%s",basename,".dat"));
     /* make the datafiles for the treatements */
     if ((fp_dat = fopen(dat_name,"w")) == (FILE *)0){
 	fprintf(stderr,"Error: unable to open GNUPLOT data file %s\n",
@@ -490,19 +492,19 @@ static void print_gnu_range_graph2(RANK *rank, char *percent_desc, char *testnam
     } else
 	if (feedback >= 1) printf("        Output written to '%s.*'\n",basename);
 
-    sprintf(mean_name,"%s%s",basename,".mean");
+    mean_name = (char *)TEXT_strdup((TEXT *)rsprintf("%s%s",basename,".mean"));
     if ((fp_mean = fopen(mean_name,"w")) == (FILE *)0){
 	fprintf(stderr,"Error: unable to open GNUPLOT data file %s\n",
 		mean_name);
 	exit(1);
     }
-    sprintf(median_name,"%s%s",basename,".median");
+    median_name = (char *)TEXT_strdup((TEXT *)rsprintf("%s%s",basename,".median"));
     if ((fp_median = fopen(median_name,"w")) == (FILE *)0){
 	fprintf(stderr,"Error: unable to open GNUPLOT data file %s\n",
 		median_name);
 	exit(1);
     }
-    sprintf(plt_name,"%s%s",basename,".plt");
+    plt_name = (char *)TEXT_strdup((TEXT *)rsprintf("%s%s",basename,".plt"));
     if ((fp_plt = fopen(plt_name,"w")) == (FILE *)0){
 	fprintf(stderr,"Error: unable to open GNUPLOT file %s\n",
 		plt_name);
@@ -555,7 +557,7 @@ static void print_gnu_range_graph2(RANK *rank, char *percent_desc, char *testnam
 	fprintf(fp_plt,"     \"%s\" using 2:1 title \"Median %s\" with lines",
 		median_name, percent_desc);
 	for (t=0;t< rank->n_trt ;t++){
-	    char fmt[100]; int x;
+	    int x;
 	    strcpy(fmt,"%lf");
 	    for (x=0; x<t; x++)
 		strcat(fmt,"%*s");
@@ -602,7 +604,7 @@ static void print_gnu_range_graph2(RANK *rank, char *percent_desc, char *testnam
 	fprintf(fp_plt,"     \"%s\" using 2:1 title \"Median %s\" with lines",
 		median_name, percent_desc);
 	for (b=0;b< rank->n_blk ;b++){
-	    char fmt[100]; int x;
+	    int x;
 	    strcpy(fmt,"%lf");
 	    for (x=0; x<b; x++)
 		strcat(fmt,"%*s");
@@ -618,6 +620,13 @@ static void print_gnu_range_graph2(RANK *rank, char *percent_desc, char *testnam
     fclose(fp_median);
     fclose(fp_plt);
 
+    free_singarr(mean_name  , char);
+    free_singarr(dat_name   , char);
+    free_singarr(plt_name   , char);
+    free_singarr(basename   , char);
+    free_singarr(median_name, char);
+    free_singarr(fmt, char);
+
     free_singarr(pctt,double);
     free_singarr(rnkk,double);
     free_singarr(ind,int);
-- 
2.43.0


From deaff51a615585be23119305f33d0eaa705418a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:01 +0000
Subject: [PATCH 110/152] fix: sc_stats: no limit on the length of the output
 names

---
 src/sclite/sc_stats.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/sclite/sc_stats.c b/src/sclite/sc_stats.c
index 5c56dd4..ac01817 100644
--- a/src/sclite/sc_stats.c
+++ b/src/sclite/sc_stats.c
@@ -120,8 +120,14 @@ void run_multi_sys(SCORES *scor[],int nscor,char *out_dir,int stats,int stats_ve
     int nwin=0, **winner[15];
     double **confidence[15];
     char *win_desc[15], *win_id[15], *stat_form_str=formula_str(stats_formula);
-    char outroot[200], *sign_str=(char *)0, *wilc_str=(char *)0;
-    char outname[200];
+    char *outroot, *sign_str=(char *)0, *wilc_str=(char *)0;
+    char *outname;
+
+    /* room for the directory, the name and the longest extension */
+    alloc_singarr(outroot,((out_dir != (char *)0) ? strlen(out_dir) : 0) +
+		  strlen(stats_out_name) + 2,char);
+    alloc_singarr(outname,((out_dir != (char *)0) ? strlen(out_dir) : 0) +
+		  strlen(stats_out_name) + 20,char);
 
     if (feedback >= 1)
 	printf("Beginning Multi-System comparisons and reports\n");
@@ -293,6 +299,8 @@ void run_multi_sys(SCORES *scor[],int nscor,char *out_dir,int stats,int stats_ve
 	    free_2dimarr(winner[i],rank.n_trt,int);
 	free_RANK(&rank);
     }
+    free_singarr(outroot,char);
+    free_singarr(outname,char);
     if (sign_str != (char *)0) free(sign_str);
     if (wilc_str != (char *)0) free(wilc_str);
 
-- 
2.43.0


From 449f1995cdbac3d54c138b2ac658c64a9707ee75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:01 +0000
Subject: [PATCH 111/152] fix: sc_stats: system summaries for any number of
 systems

---
 src/sclite/scores.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sclite/scores.c b/src/sclite/scores.c
index dac3aef..5d65019 100644
--- a/src/sclite/scores.c
+++ b/src/sclite/scores.c
@@ -1594,7 +1594,7 @@ void print_N_system_summary(SCORES *sc[], int nsc, char *out_root_name, char *te
 {
     int s, g;
     FILE *fp;
-    char *fname, lfmt[50], dfmt[50], *tot_pct_fmt, *pct_fmt;
+    char *fname, *lfmt, *dfmt, *tot_pct_fmt, *pct_fmt;
     int prec, tprec, l;
     int **wcount;
     double **errs;
@@ -1650,7 +1650,9 @@ void print_N_system_summary(SCORES *sc[], int nsc, char *out_root_name, char *te
 					   &(errs[s][sc[0]->num_grp+3]),
 					   &(errs[s][sc[0]->num_grp+4]));
 
-    /* build the format statements */
+    /* build the format statements, each system takes two characters */
+    alloc_singarr(lfmt,2 * nsc + 2,char);
+    alloc_singarr(dfmt,2 * nsc + 2,char);
     sprintf(lfmt,"c");    sprintf(dfmt,"l");
     for (s=0; s<nsc; s++){
 	strcat(lfmt,"|c");    strcat(dfmt,"|c");
@@ -1734,6 +1736,8 @@ void print_N_system_summary(SCORES *sc[], int nsc, char *out_root_name, char *te
 
     free_2dimarr(errs,nsc,double);
     free_2dimarr(wcount,nsc,int);
+    free_singarr(lfmt,char);
+    free_singarr(dfmt,char);
 }
 
 
-- 
2.43.0


From a7698455b46976eda543d2ecef7116615fa1fc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:01 +0000
Subject: [PATCH 112/152] fix: sc_stats: system summaries match the speakers of
 the systems by name

---
 src/sclite/scores.c | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/sclite/scores.c b/src/sclite/scores.c
index 5d65019..8c94684 100644
--- a/src/sclite/scores.c
+++ b/src/sclite/scores.c
@@ -1595,7 +1595,7 @@ void print_N_system_summary(SCORES *sc[], int nsc, char *out_root_name, char *te
     int s, g;
     FILE *fp;
     char *fname, *lfmt, *dfmt, *tot_pct_fmt, *pct_fmt;
-    int prec, tprec, l;
+    int prec, tprec, l, o, max_grp;
     int **wcount;
     double **errs;
     
@@ -1619,7 +1619,9 @@ void print_N_system_summary(SCORES *sc[], int nsc, char *out_root_name, char *te
 
     /* allocate memory, make enough room to contain the mean, variance, stddev,
        median and Z_stat */
-    alloc_2dimZ(errs,nsc,sc[0]->num_grp + 5,double,0.0);
+    for (s=0, max_grp=0; s<nsc; s++)
+	if (sc[s]->num_grp > max_grp) max_grp = sc[s]->num_grp;
+    alloc_2dimZ(errs,nsc,max_grp + 5,double,0.0);
     alloc_2dimZ(wcount,nsc,2,int,0);
 
     /* calculate the percentages */
@@ -1643,12 +1645,12 @@ void print_N_system_summary(SCORES *sc[], int nsc, char *out_root_name, char *te
     /* calculate the statistics.  The errs array has enough room in it */
     /* to containg the mean, variancs, std_dev, median, std_dev and Z_STAT*/
     for (s=0; s<nsc; s++)
-	calc_mean_var_std_dev_Zstat_double(errs[s],sc[0]->num_grp,
-					   &(errs[s][sc[0]->num_grp]),
-					   &(errs[s][sc[0]->num_grp+1]),
-					   &(errs[s][sc[0]->num_grp+2]),
-					   &(errs[s][sc[0]->num_grp+3]),
-					   &(errs[s][sc[0]->num_grp+4]));
+	calc_mean_var_std_dev_Zstat_double(errs[s],sc[s]->num_grp,
+					   &(errs[s][max_grp]),
+					   &(errs[s][max_grp+1]),
+					   &(errs[s][max_grp+2]),
+					   &(errs[s][max_grp+3]),
+					   &(errs[s][max_grp+4]));
 
     /* build the format statements, each system takes two characters */
     alloc_singarr(lfmt,2 * nsc + 2,char);
@@ -1689,9 +1691,17 @@ void print_N_system_summary(SCORES *sc[], int nsc, char *out_root_name, char *te
 	Desc_add_row_separation('-',BEFORE_ROW);
 	Desc_set_iterated_format(dfmt); 
 	Desc_set_iterated_value(rsprintf(" %s ",sc[0]->grp[g].name));
-	for (s=0; s<nsc; s++)
-	    Desc_set_iterated_value(rsprintf(pct_fmt,
-					     F_ROUND(errs[s][g],prec)));
+	/* the systems may list their speakers in different orders */
+	for (s=0; s<nsc; s++){
+	    for (o=0; o<sc[s]->num_grp; o++)
+		if (strcmp(sc[0]->grp[g].name,sc[s]->grp[o].name) == 0)
+		    break;
+	    if (o < sc[s]->num_grp)
+		Desc_set_iterated_value(rsprintf(pct_fmt,
+						 F_ROUND(errs[s][o],prec)));
+	    else
+		Desc_set_iterated_value("");
+	}
 	Desc_flush_iterated_row();
     }
 
@@ -1713,7 +1723,7 @@ void print_N_system_summary(SCORES *sc[], int nsc, char *out_root_name, char *te
     Desc_flush_iterated_row();
     Desc_add_row_separation('-',BEFORE_ROW);
 
-    for (l=0, g=sc[0]->num_grp; g<sc[0]->num_grp+5; l++, g++){
+    for (l=0, g=max_grp; g<max_grp+5; l++, g++){
 	if (l == 1 || l == 4)
 	    continue;
 	Desc_set_iterated_format(lfmt); 
-- 
2.43.0


From 91b45721fa15484cf30b63e902400c0089e7a160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:36 +0000
Subject: [PATCH 113/152] fix: sc_stats: the low end of a range may lie above
 100 percent

---
 src/sclite/range.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sclite/range.c b/src/sclite/range.c
index e04b608..8e05309 100644
--- a/src/sclite/range.c
+++ b/src/sclite/range.c
@@ -101,8 +101,7 @@ static void do_blk_ranges(RANK *rank, int scale, char *p_desc, char *tname, FILE
 
     /**** find the high, low, and the standard deviation for each block */
     for (i=0;i< rank->n_blk ;i++){
-        high[i] = 0.0;
-        low[i] = 100.0;
+        high[i] = low[i] = rank->pcts [ i ][ 0 ] ;
         mean[i] = 0.0;
         for (j=0;j< rank->n_trt ;j++){
             if (rank->pcts [ i ][ j ]  > high[i])
@@ -153,8 +152,7 @@ static void do_trt_ranges(RANK *rank, int scale, char *p_desc, char *tname, FILE
 
     /**** find the high, low, and the standard deviation for each treatment*/
     for (i=0;i< rank->n_trt ;i++){
-        high[i] = 0.0;
-        low[i] = 100.0;
+        high[i] = low[i] = (rank->n_blk > 0) ? rank->pcts [ 0 ][ i ] : 0.0;
         mean[i] = 0.0;
         for (j=0;j< rank->n_blk ;j++){
             if (rank->pcts [ j ][ i ]  > high[i])
-- 
2.43.0


From 7b6681d6dd89f8ff8619bbaf2855e3b3c45ade11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:56 +0000
Subject: [PATCH 114/152] fix: sclite -d: refuse ctm hypotheses that miss files
 of the reference

---
 src/sclite/align.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index 4bf7c5c..9228bb9 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -1171,6 +1171,19 @@ SCORES *align_ctm_to_stm_diff(char *ref_file, char *hyp_file, char *set_title, i
 		just_read = 0;
         } while (just_read);
 
+	if (hyp_segs->s > hyp_segs->n && stm->s < stm->num){
+	    fprintf(stderr,"%s: premature EOF in hyp file '%s' at file '%s' "
+		    "of ref file '%s'\n",proc,hyp_file,
+		    (char *)stm->seg[stm->s].file,ref_file);
+	    return((SCORES *)0);
+	}
+	if (hyp_segs->s <= hyp_segs->n && stm->s >= stm->num){
+	    fprintf(stderr,"%s: premature EOF in ref file '%s' at file '%s' "
+		    "of hyp file '%s'\n",proc,ref_file,
+		    hyp_segs->word[hyp_segs->s].conv,hyp_file);
+	    return((SCORES *)0);
+	}
+
 	/* find the end of the second channel for the hyp file */
 	locate_WTOKE_boundary(hyp_segs, hyp_segs->s, 1, 1, &hyp_end_chan1);
 	if (hyp_end_chan1+1 <= hyp_segs->n &&
@@ -1312,7 +1325,7 @@ SCORES *align_ctm_to_stm_diff(char *ref_file, char *hyp_file, char *set_title, i
 	/* increment the start pointers */
 	hyp_segs->s = hyp_end_chan2+1;
 	stm->s = ref_end_chan2+1;
-    } while (hyp_segs->s <= hyp_segs->n);
+    } while ((hyp_segs->s <= hyp_segs->n) || (stm->s < stm->num));
 
     fclose(fp_hyp);
     fclose(fp_ref);
-- 
2.43.0


From 37762d9db69880fd31aa86eded03d9800c6912be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:20 +0000
Subject: [PATCH 115/152] fix: sclite -n: a root name of its own for each of
 several hypotheses

---
 src/sclite/sclite.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sclite/sclite.c b/src/sclite/sclite.c
index 34410dd..cb53ba2 100644
--- a/src/sclite/sclite.c
+++ b/src/sclite/sclite.c
@@ -189,12 +189,17 @@ int main(int argc, char **argv){
 	    }
 	    
 	    { char *name;
+	      /* with several hypotheses, each has a root name of its own */
+	      char *ename = strdup((out_name == (char *)0) ? hroot :
+				   (num_hyps > 1) ?
+				   rsprintf("%s.%s",out_name,hroot) : out_name);
 	      if ((out_dir != (char *)0) ||
 		  TEXT_strcmp(((out_dir != (char *)0) ? (TEXT *)out_dir : (TEXT *)hdir),(TEXT *)".") != 0)
                 name = rsprintf("%s/%s",((out_dir != (char *)0) ? out_dir : (char *)hdir),
-				(out_name != (char *)0) ? out_name : hroot);
+				ename);
 	      else
-	        name = rsprintf("%s",(out_name != (char *)0) ? out_name : hroot);
+	        name = rsprintf("%s",ename);
+	      free(ename);
 	      if (outrootLen < TEXT_strlen((TEXT *)name)+1){
 		expand_singarr(outroot,TEXT_strlen((TEXT *)name),outrootLen,1.5,TEXT);
 	      }
-- 
2.43.0


From 12638a6a04f1cefb7b1d67c3b0554b50b005f999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:55 +0000
Subject: [PATCH 116/152] fix: report generator: titles of any width

---
 src/sclite/rpg.c | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/sclite/rpg.c b/src/sclite/rpg.c
index e987703..0d83d57 100644
--- a/src/sclite/rpg.c
+++ b/src/sclite/rpg.c
@@ -313,10 +313,16 @@ int Desc_set_justification(char *just_str)
 
 char *get_next_string_value(char **str, int width)
 {
-    static char buf[300];
+    static char *buf = NULL;
+    static int buf_len = 0;
     char *p;
     int x=0;
 
+    if (width + 1 > buf_len){
+	if (buf != NULL) free_singarr(buf,char);
+	buf_len = (width + 1 > 300) ? width + 1 : 300;
+	alloc_singarr(buf,buf_len,char);
+    }
     p = *str;
 
     for (x=0; (x < width) && (*p != '\0') && !(*p == '/' && *(p+1) == '/'); x++, p++)
@@ -344,14 +350,11 @@ void print_spaces(int n, FILE *fp)
 	fprintf(fp," ");
 }
 
-#define SPACES_LEN   300
 void Desc_dump_report(int space_pad, FILE *fp)
 {
     int c, r, x, text_width, c2, j;
     int *hit, column_width;
     char *p;
-    char fmt_str1[1000]; 
-    char *spaces="                                                                                                                                                                                                                                                                                                            ";
     char **desc_column_ptr;
     int *desc_column_size;
     int *desc_column_text_size;
@@ -661,29 +664,26 @@ void Desc_dump_report(int space_pad, FILE *fp)
 		    switch (rpgstr->col_defs[current_just].col_just[c]){
 		      case 'c':
 		      case 'C':
-			*fmt_str1='\0';
-			sprintf(fmt_str1,"%s%%%ds%s", spaces+SPACES_LEN-((column_width-text_width)/2),text_width,
-				spaces+SPACES_LEN-(column_width-text_width - ((column_width-text_width)/2)));
-			fprintf(fp,fmt_str1,
+			print_spaces((column_width-text_width)/2, fp);
+			fprintf(fp,"%*s",text_width,
 				center(get_next_string_value(&(desc_column_ptr[c]),text_width),text_width));
+			print_spaces(column_width-text_width - ((column_width-text_width)/2), fp);
 			if (*desc_column_ptr[c] != '\0')
 			    row_not_done = 1;
 			break;
 		      case 'r':
 		      case 'R':
-			*fmt_str1='\0';
-			sprintf(fmt_str1,"%s%%%ds%s",spaces+SPACES_LEN-((column_width-text_width)/2),text_width,
-				spaces+SPACES_LEN-(column_width-text_width - ((column_width-text_width)/2)));
-			fprintf(fp,fmt_str1,get_next_string_value(&(desc_column_ptr[c]),text_width));
+			print_spaces((column_width-text_width)/2, fp);
+			fprintf(fp,"%*s",text_width,get_next_string_value(&(desc_column_ptr[c]),text_width));
+			print_spaces(column_width-text_width - ((column_width-text_width)/2), fp);
 			if (*desc_column_ptr[c] != '\0')
 			    row_not_done = 1;
 			break;
 		      case 'l':
 		      case 'L':
-			*fmt_str1='\0';
-			sprintf(fmt_str1,"%s%%-%ds%s",spaces+SPACES_LEN-((column_width-text_width)/2),text_width,
-				spaces+SPACES_LEN-(column_width-text_width - ((column_width-text_width)/2)));
-			fprintf(fp,fmt_str1,get_next_string_value(&(desc_column_ptr[c]),text_width));
+			print_spaces((column_width-text_width)/2, fp);
+			fprintf(fp,"%-*s",text_width,get_next_string_value(&(desc_column_ptr[c]),text_width));
+			print_spaces(column_width-text_width - ((column_width-text_width)/2), fp);
 			if (*desc_column_ptr[c] != '\0')
 			    row_not_done = 1;
 			break;
-- 
2.43.0


From 55f10c9ea8d044c21a4bc8e1ff6110959dabdabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:51 +0000
Subject: [PATCH 117/152] fix: asclite: standard deviation of a single speaker

---
 src/asclite/core/statistics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asclite/core/statistics.cpp b/src/asclite/core/statistics.cpp
index 53ec683..40b495e 100644
--- a/src/asclite/core/statistics.cpp
+++ b/src/asclite/core/statistics.cpp
@@ -51,7 +51,7 @@ void Statistics::Compute()
 		}
 		
 		m_Mean = m_Sum/((double) m_VecValues.size());
-		m_SD = sqrt((n * sumSqr - m_Sum*m_Sum) / ( n * (n-1)));
+		m_SD = (n > 1) ? sqrt(max(0.0, (n * sumSqr - m_Sum*m_Sum) / ( n * (n-1)))) : 0.0;
 		
 		if(m_VecValues.size()%2 == 0)
 			m_Median = (m_VecValues[m_VecValues.size()/2]+m_VecValues[m_VecValues.size()/2-1])/2.0;
-- 
2.43.0


From c5a2f08d267416239052994fcc572dd194fa8fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:42 +0000
Subject: [PATCH 118/152] fix: asclite: total NCE out of range

---
 src/asclite/core/rawsys_reportgenerator.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/asclite/core/rawsys_reportgenerator.cpp b/src/asclite/core/rawsys_reportgenerator.cpp
index 219acc5..2c51b2a 100644
--- a/src/asclite/core/rawsys_reportgenerator.cpp
+++ b/src/asclite/core/rawsys_reportgenerator.cpp
@@ -647,7 +647,12 @@ void RAWSYSReportGenerator::GenerateSystem(Alignment* alignment, const string& s
 		AddStringText(output, 100.0*StatisticsSegmentsErrors.GetSum()/StatisticsSegments.GetSum(1), 1, "right", sizeofSegmentsErrors);
 	
 	output << " | ";
-	AddStringText(output, GetTotalNCE(StatisticsCorrectWords.GetSum(), StatisticsInsertions.GetSum(), StatisticsSubstitutions.GetSum(), StatisticsSpeakerErrors.GetSum()), 3, "middle", sizeofNCE);
+	double totalNCE = GetTotalNCE(StatisticsCorrectWords.GetSum(), StatisticsInsertions.GetSum(), StatisticsSubstitutions.GetSum(), StatisticsSpeakerErrors.GetSum());
+	
+	if(fabs(totalNCE) <= 1000.0)
+		AddStringText(output, totalNCE, 3, "middle", sizeofNCE);
+	else
+		AddStringText(output, (totalNCE < 0.0) ? "-inf" : "+inf", "middle", sizeofNCE);
 	
 	output << " |" << endl;
 	
-- 
2.43.0


From 8f9262971763c9ab23f64e50fcd4de12d26681bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:21 +0000
Subject: [PATCH 119/152] fix: asclite: reports that cannot be written go to
 standard output

---
 src/asclite/core/rawsys_reportgenerator.cpp       | 2 +-
 src/asclite/core/sgml_generic_reportgenerator.cpp | 2 +-
 src/asclite/core/sgml_reportgenerator.cpp         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/asclite/core/rawsys_reportgenerator.cpp b/src/asclite/core/rawsys_reportgenerator.cpp
index 2c51b2a..ae1b6df 100644
--- a/src/asclite/core/rawsys_reportgenerator.cpp
+++ b/src/asclite/core/rawsys_reportgenerator.cpp
@@ -917,7 +917,7 @@ void RAWSYSReportGenerator::Generate(Alignment* alignment, int where)
 			if(! file.is_open())
 			{
 				LOG_ERR(logger, "Could not open file '" + filename + "' for " + extensionfile + " report, the output will be redirected in the stdout to avoid any lost.");
-				where = 1;
+				where = 0;
 			}
 			else
 			{
diff --git a/src/asclite/core/sgml_generic_reportgenerator.cpp b/src/asclite/core/sgml_generic_reportgenerator.cpp
index a940a92..65be0ce 100644
--- a/src/asclite/core/sgml_generic_reportgenerator.cpp
+++ b/src/asclite/core/sgml_generic_reportgenerator.cpp
@@ -49,7 +49,7 @@ void SGMLGenericReportGenerator::Generate(int where)
 		if(! file.is_open())
 		{
 			LOG_ERR(m_pLogger, "Could not open file '" + filename + "' for XML Generic report, the output will be redirected in the stdout to avoid any lost.");
-			where = 1;
+			where = 0;
 		}
 		else
 		{
diff --git a/src/asclite/core/sgml_reportgenerator.cpp b/src/asclite/core/sgml_reportgenerator.cpp
index 761d3a9..e9a366d 100644
--- a/src/asclite/core/sgml_reportgenerator.cpp
+++ b/src/asclite/core/sgml_reportgenerator.cpp
@@ -46,7 +46,7 @@ void SGMLReportGenerator::Generate(Alignment* alignment, int where)
 			if(! file.is_open())
 			{
 				LOG_ERR(m_pLogger, "Could not open file '" + filename + "' for SGML report, the output will be redirected in the stdout to avoid any lost.");
-				where = 1;
+				where = 0;
 			}
 			else
 			{
-- 
2.43.0


From e017089996f3721f58d414e43cd5315774214168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:57 +0000
Subject: [PATCH 120/152] fix: asclite: columns of the summary reports as wide
 as their percentages

---
 src/asclite/core/rawsys_reportgenerator.cpp | 15 +++++++++++++++
 src/asclite/core/statistics.cpp             | 16 +++++++++++-----
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/asclite/core/rawsys_reportgenerator.cpp b/src/asclite/core/rawsys_reportgenerator.cpp
index ae1b6df..0eb5871 100644
--- a/src/asclite/core/rawsys_reportgenerator.cpp
+++ b/src/asclite/core/rawsys_reportgenerator.cpp
@@ -400,19 +400,34 @@ void RAWSYSReportGenerator::GenerateSystem(Alignment* alignment, const string& s
 	sizeofRefWords = max(sizeofRefWords, StatisticsRefWords.GetMaxSizeString());
 	sizeofCorrectWords = max(sizeofCorrectWords, StatisticsCorrectWords.GetMaxSizeString());
 	sizeofCorrectWords = max(sizeofCorrectWords, StatisticsCorrectWordsNotNull.GetMaxSizeString());
+	sizeofCorrectWords = max(sizeofCorrectWords, StatisticsPctCorrectWordsNotNull.GetMaxSizeString());
 	sizeofSubstitutions = max(sizeofSubstitutions, StatisticsSubstitutions.GetMaxSizeString());
 	sizeofSubstitutions = max(sizeofSubstitutions, StatisticsSubstitutionsNotNull.GetMaxSizeString());
+	sizeofSubstitutions = max(sizeofSubstitutions, StatisticsPctSubstitutionsNotNull.GetMaxSizeString());
 	sizeofSpeakerErrors = max(sizeofSpeakerErrors, StatisticsSpeakerErrors.GetMaxSizeString());
 	sizeofSpeakerErrors = max(sizeofSpeakerErrors, StatisticsSpeakerErrorsNotNull.GetMaxSizeString());
+	sizeofSpeakerErrors = max(sizeofSpeakerErrors, StatisticsPctSpeakerErrorsNotNull.GetMaxSizeString());
 	sizeofDeletions = max(sizeofDeletions, StatisticsDeletions.GetMaxSizeString());
 	sizeofDeletions = max(sizeofDeletions, StatisticsDeletionsNotNull.GetMaxSizeString());
+	sizeofDeletions = max(sizeofDeletions, StatisticsPctDeletionsNotNull.GetMaxSizeString());
 	sizeofInsertions = max(sizeofInsertions, StatisticsInsertions.GetMaxSizeString());
 	sizeofInsertions = max(sizeofInsertions, StatisticsInsertionsNotNull.GetMaxSizeString());
+	sizeofInsertions = max(sizeofInsertions, StatisticsPctInsertionsNotNull.GetMaxSizeString());
 	sizeofErrors = max(sizeofErrors, StatisticsErrors.GetMaxSizeString());
 	sizeofErrors = max(sizeofErrors, StatisticsErrorsNotNull.GetMaxSizeString());
+	sizeofErrors = max(sizeofErrors, StatisticsPctErrorsNotNull.GetMaxSizeString());
 	sizeofSegmentsErrors = max(sizeofSegmentsErrors, StatisticsSegmentsErrors.GetMaxSizeString());
 	sizeofSegmentsErrors = max(sizeofSegmentsErrors, StatisticsPctSegmentsErrors.GetMaxSizeString());
 	
+	// the overall percentages may be larger than those of any speaker
+	if(StatisticsRefWords.GetSum() != 0)
+	{
+		vector<double> pctInsertions(1, 100.0*StatisticsInsertions.GetSum()/StatisticsRefWords.GetSum());
+		vector<double> pctErrors(1, 100.0*StatisticsErrors.GetSum()/StatisticsRefWords.GetSum());
+		sizeofInsertions = max(sizeofInsertions, Statistics(pctInsertions).GetMaxSizeString());
+		sizeofErrors = max(sizeofErrors, Statistics(pctErrors).GetMaxSizeString());
+	}
+	
 	if(isStarDiezePlus)
 	{
 		++sizeofCorrectWords;
diff --git a/src/asclite/core/statistics.cpp b/src/asclite/core/statistics.cpp
index 40b495e..bdae38a 100644
--- a/src/asclite/core/statistics.cpp
+++ b/src/asclite/core/statistics.cpp
@@ -31,6 +31,12 @@ Statistics::Statistics(const vector<double> & _vecValues) : m_VecValues(_vecValu
 	Compute();
 }
 
+/** Digits before the decimal point */
+static int NumberOfDigits(const double& value)
+{
+	return( (value < 10.0) ? 1 : (int)floor(log10(value)+1e-9) + 1 );
+}
+
 void Statistics::Compute()	
 {
 	if(!m_VecValues.empty())
@@ -47,7 +53,7 @@ void Statistics::Compute()
 		{
 			m_Sum += m_VecValues[i];
 			sumSqr += m_VecValues[i]*m_VecValues[i];
-			m_MaxSize = max(m_MaxSize, (int)( ceil(log((double)m_VecValues[i])/log(10.0)) ) );
+			m_MaxSize = max(m_MaxSize, NumberOfDigits(m_VecValues[i]+0.05) + 2);
 		}
 		
 		m_Mean = m_Sum/((double) m_VecValues.size());
@@ -58,10 +64,10 @@ void Statistics::Compute()
 		else
 			m_Median = m_VecValues[m_VecValues.size()/2];
 		
-		m_MaxSize = max(m_MaxSize, (int)( ceil(log(m_Sum)/log(10.0)) ) +2);
-		m_MaxSize = max(m_MaxSize, (int)( ceil(log(m_Mean)/log(10.0)) ) +2);
-		m_MaxSize = max(m_MaxSize, (int)( ceil(log(m_SD)/log(10.0)) ) +2);
-		m_MaxSize = max(m_MaxSize, (int)( ceil(log(m_Median)/log(10.0)) ) +2);
+		m_MaxSize = max(m_MaxSize, NumberOfDigits(m_Sum+0.05) + 2);
+		m_MaxSize = max(m_MaxSize, NumberOfDigits(m_Mean+0.05) + 2);
+		m_MaxSize = max(m_MaxSize, NumberOfDigits(m_SD+0.05) + 2);
+		m_MaxSize = max(m_MaxSize, NumberOfDigits(m_Median+0.05) + 2);
 	}
 	else
 	{
-- 
2.43.0


From 6a50a4987678d20001004f978faa0bd3aa2b448d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:20 +0000
Subject: [PATCH 121/152] fix: hubscr: sort the records of a file and channel
 together whatever the white space between the fields

---
 src/hubscr/hubscr.pl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hubscr/hubscr.pl b/src/hubscr/hubscr.pl
index 9c1b8e2..b4738a9 100755
--- a/src/hubscr/hubscr.pl
+++ b/src/hubscr/hubscr.pl
@@ -356,8 +356,9 @@ sub sortCTM{
     while (<STDIN>){
 	s/^\s+//;
 	next if ($_ =~ /^;;/ || $_ =~ /^$/);
+	$_ .= "\n" if ($_ !~ /\n$/);
 	my (@a) = split(/(\s+)/);
-	push @{ $data{$a[0]}{$a[1]} }, \@a;
+	push @{ $data{$a[0]}{$a[2]} }, \@a;
     }
 
     foreach my $file(sort (keys %data)){
@@ -386,8 +387,9 @@ sub sortSTM{
 	    print;
 	    next;
 	}
+	$_ .= "\n" if ($_ !~ /\n$/);
 	my (@a) = split(/(\s+)/);
-	push @{ $data{$a[0]}{$a[1]} }, \@a;
+	push @{ $data{$a[0]}{$a[2]} }, \@a;
     }
 
     foreach my $file(sort (keys %data)){
-- 
2.43.0


From 000b1a0e7ca8273d2f4e3e42d78634c276e04b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:59 +0000
Subject: [PATCH 122/152] fix: hubscr: keep the lines of an alternation
 together when a ctm file is sorted

---
 src/hubscr/hubscr.pl | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/hubscr/hubscr.pl b/src/hubscr/hubscr.pl
index b4738a9..a40b5de 100755
--- a/src/hubscr/hubscr.pl
+++ b/src/hubscr/hubscr.pl
@@ -353,18 +353,28 @@ sub ctmSort {
 
 sub sortCTM{
     my %data = ();
+    my $alt = undef;   ### The alternation being read: its lines stay together
     while (<STDIN>){
 	s/^\s+//;
 	next if ($_ =~ /^;;/ || $_ =~ /^$/);
 	$_ .= "\n" if ($_ !~ /\n$/);
 	my (@a) = split(/(\s+)/);
-	push @{ $data{$a[0]}{$a[2]} }, \@a;
+	if (defined($alt)){
+	    $alt->[4] = $a[4] if ($alt->[4] eq "*");
+	    push @{ $alt->[-1] }, \@a;
+	} else {
+	    push @{ $data{$a[0]}{$a[2]} }, [ @a[0..4], [ \@a ] ];
+	    $alt = $data{$a[0]}{$a[2]}->[-1] if ($#a >= 8 && $a[8] =~ /^<ALT_BEGIN>$/i);
+	}
+	$alt = undef if ($#a >= 8 && $a[8] =~ /^<ALT_END>$/i);
     }
 
     foreach my $file(sort (keys %data)){
 	foreach my $chan(sort (keys %{ $data{$file} })){
-	    foreach my $a(sort ctmSort @{ $data{$file}{$chan} }){
-		print join("",@$a);
+	    foreach my $rec(sort ctmSort @{ $data{$file}{$chan} }){
+		foreach my $a(@{ $rec->[-1] }){
+		    print join("",@$a);
+		}
 	    }
 	}
     }
-- 
2.43.0


From 242cd0331fb9f6b229dfb3bf64dc5eaf3c107a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:59 +0000
Subject: [PATCH 123/152] fix: hubscr: german tests can be scored when their
 lexicon is given

---
 src/hubscr/hubscr.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hubscr/hubscr.pl b/src/hubscr/hubscr.pl
index a40b5de..d4209c3 100755
--- a/src/hubscr/hubscr.pl
+++ b/src/hubscr/hubscr.pl
@@ -317,7 +317,7 @@ sub ProcessCommandLine
 	if (($Lang ne "german" && ($Lang ne "arabic")) && $LDCLEX ne "");
 
     die("$Usage\nError: Unable to access LDC Lexicon file '$LDCLEX'\n") 
-	if ($DEF_ART_ENABLED && ($Lang eq "german"));
+	if (($Lang eq "german") && (! -f $LDCLEX));
 
     #### Check the LM and WWL files
     die("$Usage\nError: Unable to use both -M and -w\n") 
-- 
2.43.0


From f9bee517e64769b9b59ad614893f7c8aa1517f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:00 +0000
Subject: [PATCH 124/152] fix: hubscr: -M holds md-eval's arguments, the
 language model is -K

---
 src/hubscr/hubscr.pl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hubscr/hubscr.pl b/src/hubscr/hubscr.pl
index d4209c3..8f37970 100755
--- a/src/hubscr/hubscr.pl
+++ b/src/hubscr/hubscr.pl
@@ -320,10 +320,10 @@ sub ProcessCommandLine
 	if (($Lang eq "german") && (! -f $LDCLEX));
 
     #### Check the LM and WWL files
-    die("$Usage\nError: Unable to use both -M and -w\n") 
-	if (defined($main::opt_M) && defined($main::opt_w));
-    die("$Usage\nError: SLM language model '$main::opt_M' not found\n") 
-	if (defined($main::opt_M) && (! -f $main::opt_M));
+    die("$Usage\nError: Unable to use both -K and -w\n") 
+	if (defined($main::opt_K) && defined($main::opt_w));
+    die("$Usage\nError: SLM language model '$main::opt_K' not found\n") 
+	if (defined($main::opt_K) && (! -f $main::opt_K));
     die("$Usage\nError: WWL file '$main::opt_w' not found\n") 
 	if (defined($main::opt_w) && (! -f $main::opt_w));
 
-- 
2.43.0


From 5eb1371600b577b7a735754ef56ab4e945fe617a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:00 +0000
Subject: [PATCH 125/152] fix: hubscr: arabic tests can be scored without a
 lexicon

---
 src/hubscr/hubscr.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hubscr/hubscr.pl b/src/hubscr/hubscr.pl
index 8f37970..6487f78 100755
--- a/src/hubscr/hubscr.pl
+++ b/src/hubscr/hubscr.pl
@@ -564,7 +564,7 @@ sub FilterFile
     { 
 	$csrfilt_com = "$CSRFILT -s -i $format -t $purpose -dh $GLM";
 	if ($DEF_ART_ENABLED){
-            $def_art_com = "$DEF_ART -s $LDCLEX -i $format - -";
+            $def_art_com = "$DEF_ART ".($LDCLEX ne "" ? "-s $LDCLEX" : "")." -i $format - -";
 	} else {
             $def_art_com = "cat";
 	}
-- 
2.43.0


From 5f1f28c96c4727a6ece6d0d2ec9f19d672df998f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:37 +0000
Subject: [PATCH 126/152] fix: tanweenFilt: words before a tab end there too

---
 src/tanweenFilt/tanweenFilt.pl | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/tanweenFilt/tanweenFilt.pl b/src/tanweenFilt/tanweenFilt.pl
index 63fb9f0..542f8e7 100755
--- a/src/tanweenFilt/tanweenFilt.pl
+++ b/src/tanweenFilt/tanweenFilt.pl
@@ -90,16 +90,11 @@ exit 0;
 
 sub normalize{
     my ($text) = @_;
-    $text = " ".$text;    
     if ($AllTanween){
 	$text =~ s/(\331\215|\331\214|\331\213)//g;
     } else {
-	$text =~ s/(\331\215|\331\214|\331\213)$//g;
-	$text =~ s/(\331\215|\331\214|\331\213)\)$/\)/g;
-	$text =~ s/(\331\215|\331\214|\331\213)\) /\) /g;
-	$text =~ s/(\331\215|\331\214|\331\213) / /g;
+	$text =~ s/(\331\215|\331\214|\331\213)(?=\)?(\s|$))//g;
     }
-    $text =~ s/^ //;
     $text;
 }
 
-- 
2.43.0


From ca2f46df9727851b3cb4f22709c666ff023d51ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:37 +0000
Subject: [PATCH 127/152] fix: acomp: keep the last character of a file without
 a final newline

---
 src/acomp/acomp.pl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/acomp/acomp.pl b/src/acomp/acomp.pl
index 5d84182..81e71ab 100755
--- a/src/acomp/acomp.pl
+++ b/src/acomp/acomp.pl
@@ -83,7 +83,7 @@ open(IN,"$InFile") || die("Error: Unable to open input file '$InFile'");
 open(OUT,">$OutFile") || die("Error: Unable to open output file '$OutFile'");
 
 while (<IN>){
-    chop;
+    chomp;
     if ($_ =~ /^;;/){
 	print OUT "$_\n";
     } elsif ($InFmt eq "txt"){
@@ -292,7 +292,7 @@ sub LoadLex{
 
     print "Reading Lexicon: '$Lex'\n   Each . is 10000 entries:   " if ($db);
     while (<LEX>){
-	chop;
+	chomp;
 	($word) = split;
 	$word =~ tr/a-z/A-Z/;
 	$word =~ tr/\340-\377/\300-\337/; 
-- 
2.43.0


From a1e3c0f8dc6c4234d06ea74699ecce26ca2c224d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:37 +0000
Subject: [PATCH 128/152] fix: acomp: compounds of the longest words of the
 lexicon are expanded

---
 src/acomp/acomp.pl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/acomp/acomp.pl b/src/acomp/acomp.pl
index 81e71ab..b2de570 100755
--- a/src/acomp/acomp.pl
+++ b/src/acomp/acomp.pl
@@ -313,6 +313,8 @@ sub LoadLex{
 	} else {
 	    $LexHash{$word} = "1";
 	    $CompHash{$word} = $word;
+	    $len = length($word);
+	    $MaxLen = $len if ($MaxLen < $len);
 	}
 	if (($. + 1) % 10000 == 0){
 	    print "." if ($db);
-- 
2.43.0


From 6bbb32bd85261b824288f53f570aab9d9630efd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:37 +0000
Subject: [PATCH 129/152] fix: acomp: triplet consonants, the words are upper
 case

---
 src/acomp/acomp.pl | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/acomp/acomp.pl b/src/acomp/acomp.pl
index b2de570..fb7878e 100755
--- a/src/acomp/acomp.pl
+++ b/src/acomp/acomp.pl
@@ -252,11 +252,11 @@ sub is_Compound{
 		    print "$ind**** Residual length < MinCompLen $MinCompLen\n" if ($db);
 		}
 		#### handle the geminate constant conditional
-		if (! $stop_recur && $DoTriplet && $sval =~ /([bcdfghjklmnpqrstvwxyz])\1$/){
-		    $resid = substr($val,$i-1);
-		    print $ind."      Possible geminate consonate subword residual $resid\n" if ($db);
-		    if (length($resid) >= $MinCompLen){
-			if (&is_Compound($hist." $sval",$resid, $ind."   |",*comps) == 1){
+		if (! $stop_recur && $DoTriplet && $sval =~ /([BCDFGHJKLMNPQRSTVWXYZ])\1$/){
+		    local($gresid) = substr($val,$i-1);
+		    print $ind."      Possible geminate consonate subword residual $gresid\n" if ($db);
+		    if (length($gresid) >= $MinCompLen){
+			if (&is_Compound($hist." $sval",$gresid, $ind."   |",*comps) == 1){
 			    $stop_recur = 1;
 			    print "$ind**** Curtailing search for triplet consonants\n" if ($db);
 			} else {
-- 
2.43.0


From 6c6a58c83f67eac4252f1bd07f765b62e6008edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:37 +0000
Subject: [PATCH 130/152] fix: acomp: a constituent starting with en keeps it
 after an inserted s

---
 src/acomp/acomp.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acomp/acomp.pl b/src/acomp/acomp.pl
index fb7878e..3dc4dbf 100755
--- a/src/acomp/acomp.pl
+++ b/src/acomp/acomp.pl
@@ -268,7 +268,7 @@ sub is_Compound{
 		if (! $stop_recur && $DoInserts && ( $resid =~ /^([sS]|[eE][nN])/ ) ){
 		    local($gen);
 		    if ($resid =~ /^[sS]/){  $resid = substr($val,$i+1); $gen = "s" } 
-		    if ($resid =~ /^[eE][nN]/){  $resid = substr($val,$i+2); $gen = "en" } 
+		    elsif ($resid =~ /^[eE][nN]/){  $resid = substr($val,$i+2); $gen = "en" } 
 		    print $ind."      Possible additional '$gen' on residual '$gen'$resid\n" if ($db);
 		    if (length($resid) >= $MinCompLen){
 			if (&is_Compound($hist." $sval",$resid, $ind."   |",*comps) == 1){
-- 
2.43.0


From 1e9c5102842d638610e0a12f8bbc7ef56f4f7fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:37 +0000
Subject: [PATCH 131/152] fix: acomp: no stray letters before an optionally
 deletable fragment

---
 src/acomp/acomp.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/acomp/acomp.pl b/src/acomp/acomp.pl
index 3dc4dbf..cda4292 100755
--- a/src/acomp/acomp.pl
+++ b/src/acomp/acomp.pl
@@ -152,7 +152,7 @@ sub String_LU{
 		    $new .= "(".$ne.") ";
 		}
 	    } else {
-		$lookup =~ s/(\S+-)$/aq($1)/; 
+		$lookup =~ s/(\S+-)$/($1)/; 
 		$new .= "$lookup ";
 	    }
 	} else {
-- 
2.43.0


From 4b55d9ed9f600c8b5ef1799d6f8157c2a7f37fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:37 +0000
Subject: [PATCH 132/152] fix: acomp: keep the times of ctm records, and the
 marks of alternations

---
 src/acomp/acomp.pl | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/acomp/acomp.pl b/src/acomp/acomp.pl
index cda4292..f0fa996 100755
--- a/src/acomp/acomp.pl
+++ b/src/acomp/acomp.pl
@@ -101,8 +101,13 @@ while (<IN>){
 
 	$newt = &String_LU($ctm[4]);
 	@new_words = split(/\s+/,$newt);
+	if ($#new_words <= 0){
+	    ### Not divided: only the word can have changed, not the times
+	    print OUT join(" ",@ctm[0..3],$newt,$conf)."\n";
+	    next;
+	}
 	for ($i=0; $i<=$#new_words; $i++){
-	    printf OUT ("%s %s %.2f %.2f %s %s\n",$ctm[0],$ctm[1],
+	    printf OUT ("%s %s %.3f %.3f %s %s\n",$ctm[0],$ctm[1],
 			$ctm[2] + ($i * ($ctm[3] / ($#new_words+1))),
 			$ctm[3] / ($#new_words + 1), $new_words[$i], $conf);
 	}
-- 
2.43.0


From ce671f21ae4b16c644f1c78adbea905350e9e8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:01 +0000
Subject: [PATCH 133/152] fix: def_art: plain text is the default format

---
 src/def_art/def_art.pl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/def_art/def_art.pl b/src/def_art/def_art.pl
index ee76ded..749a1f6 100755
--- a/src/def_art/def_art.pl
+++ b/src/def_art/def_art.pl
@@ -31,6 +31,7 @@ $Usage="Usage: def_art.sh [ -i fmt ] [ -s LDC_LEX ] -t Infile|- OutFile|-\n".
 "               orthography to it's script form\n".
 "\n";
 
+$InFmt="txt";
 $Format="Romanized";
 $Lexicon="";
 $Translate = 0;
-- 
2.43.0


From d346bd3db08b3ce112624bb69f48956c0a612041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:01 +0000
Subject: [PATCH 134/152] fix: def_art: keep comments, and the last character
 of a file without a final newline

---
 src/def_art/def_art.pl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/def_art/def_art.pl b/src/def_art/def_art.pl
index 749a1f6..50618a6 100755
--- a/src/def_art/def_art.pl
+++ b/src/def_art/def_art.pl
@@ -77,8 +77,10 @@ open(IN, "$InFile") || die "Unable to open trans-file $InFile";
 open(OUT, ">$OutFile") || die "Unable to open new-trans-file $OutFile";
 
 while (<IN>){
-    chop;
-    if ($InFmt eq "txt"){
+    chomp;
+    if ($_ =~ /^;;/){
+	print OUT "$_\n";
+    } elsif ($InFmt eq "txt"){
 	print OUT &String_LU($_)."\n";
     } elsif ($InFmt eq "ctm"){
 	s/^\s+//;
-- 
2.43.0


From eab0baed6afd1ba52195703a57f9fb99bd2d1744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:01 +0000
Subject: [PATCH 135/152] fix: def_art: keep the times of ctm records, and the
 marks of alternations

---
 src/def_art/def_art.pl | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/def_art/def_art.pl b/src/def_art/def_art.pl
index 50618a6..6b358ef 100755
--- a/src/def_art/def_art.pl
+++ b/src/def_art/def_art.pl
@@ -95,8 +95,13 @@ while (<IN>){
 
 	$newt = &String_LU($ctm[4]);
 	@new_words = split(/\s+/,$newt);
+	if ($#new_words <= 0){
+	    ### Not divided: only the word can have changed, not the times
+	    print OUT join(" ",@ctm[0..3],$newt,$conf)."\n";
+	    next;
+	}
 	for ($i=0; $i<=$#new_words; $i++){
-	    printf OUT ("%s %s %.2f %.3f %s %s\n",$ctm[0],$ctm[1],
+	    printf OUT ("%s %s %.3f %.3f %s %s\n",$ctm[0],$ctm[1],
 			$ctm[2] + ($i * ($ctm[3] / ($#new_words+1))),
 			$ctm[3] / ($#new_words + 1), $new_words[$i], $conf);
 	}
-- 
2.43.0


From 98f55b240e4b91d9580fdd7259293db880c8e308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:01 +0000
Subject: [PATCH 136/152] fix: def_art: the first and last word of a line are
 treated as any other

---
 src/def_art/def_art.pl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/def_art/def_art.pl b/src/def_art/def_art.pl
index 6b358ef..bb093e9 100755
--- a/src/def_art/def_art.pl
+++ b/src/def_art/def_art.pl
@@ -141,11 +141,13 @@ sub String_LU {
 	    # that "l+" in "il+" is replaced by the first letter after
 	    # the "+" sign if that letter is one of the following:
 	    # t,g,d,r,z,s,$,S,D,T,Z,n,j,k and keep em seperate.
+	    $v = " $v ";
 	    $v =~ s/il\+([&]{0,1})([tgdrzs\$SDTZnjk])/i$2 $1$2/g;
 	    $v =~ s/(il)\+([&]{0,1})([a-zA-Z])/$1 $2$3/g;
-	    $v =~ s/\s+\*\*i([ltgdrzs\$SDTZnjk])\s+/ i$1 /g;
+	    $v =~ s/\s+\*\*i([ltgdrzs\$SDTZnjk])(?=\s)/ i$1/g;
 	    $v =~ s/\s+([^\*\s]+)\*\*/ $1/g;
 	    $v =~ s/\s+(il)\+(\*?)/ $1 $2/g;
+	    $v =~ s/^\s+|\s+$//g;
 	} else {
 	    # Tokenize and lookup
 	    local ($new) = "";
-- 
2.43.0


From b253918550dbd7fa264440a091895b057a3387d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:32 +0000
Subject: [PATCH 137/152] fix: sclite: refuse a transcript with an alternation
 that is not closed instead of dropping its words

---
 src/sclite/net_adt.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sclite/net_adt.c b/src/sclite/net_adt.c
index c7ac654..3dbba2f 100644
--- a/src/sclite/net_adt.c
+++ b/src/sclite/net_adt.c
@@ -494,6 +494,9 @@ NETWORK *Network_create_from_TEXT(TEXT *text, char *name, void (*aprn)(void *),
 			proc);
 		return(NULL_NETWORK);
 	    }
+	} else if (*token != NULL_TEXT) {
+	    fprintf(stderr,"Error: Unable to parse the transcript '%s', is an alternation not closed?\n",text);
+	    exit(1);
 	}
     }
     Network_traverse(net,NULL,0,expand_alternates,0,0);
-- 
2.43.0


From 2f05df43ef17fb44fcb51dd13a0e2f95e289c33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:32 +0000
Subject: [PATCH 138/152] fix: sclite: a brace within a word is no alternation,
 and an alternation needs an alternative

---
 src/sclite/net_adt.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sclite/net_adt.c b/src/sclite/net_adt.c
index 3dbba2f..9754d71 100644
--- a/src/sclite/net_adt.c
+++ b/src/sclite/net_adt.c
@@ -964,7 +964,7 @@ static void expand_alternates(ARC *arc, void *ptr){
     static int alt=1;
 
    /* if the string has alternates */
-    if (TEXT_strchr(tw->value,'{') != NULL){
+    if (*(tw->value) == ALT_BEGIN){
 	if (db >= 5) {
 	    printf("%s: alternates found in arc\n",proc);
 	    arc->net->arc_func.print(arc->data);
@@ -1013,6 +1013,10 @@ static void expand_alternates(ARC *arc, void *ptr){
 	    }
 	}
 	TEXT_free(ctext);
+	if (first){
+	    fprintf(stderr,"Error: alternation '%s' has no alternatives\n",tw->value);
+	    exit(1);
+	}
 
 	if (db >= 10){
 	    printf("Network After Merge\n");
-- 
2.43.0


From 2d15472814630a79e09967cc6778948123d06437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:16 +0000
Subject: [PATCH 139/152] fix: asclite: refuse a transcript whose braces do not
 match instead of dropping its words

---
 src/asclite/core/linestyle_inputparser.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/asclite/core/linestyle_inputparser.cpp b/src/asclite/core/linestyle_inputparser.cpp
index b5228d5..4f228bc 100644
--- a/src/asclite/core/linestyle_inputparser.cpp
+++ b/src/asclite/core/linestyle_inputparser.cpp
@@ -347,7 +347,8 @@ vector<string> LineStyleInputParser::TokeniseWords(const string& line)
         }
         else if (string(word).compare("}") == 0)
         {
-            --currentParenthesisOpen;
+            if(--currentParenthesisOpen < 0)
+                break;
         }
     
         if (string(word).compare("{") == 0 && currentParenthesisOpen == 1)
@@ -376,6 +377,12 @@ vector<string> LineStyleInputParser::TokeniseWords(const string& line)
         word = strtok(NULL, " \t\r\n");
     }
   
+    if (currentParenthesisOpen != 0)
+    {
+        cerr << "Error: the braces of an alternation do not match in the transcript." << endl;
+        exit(E_INVALID);
+    }
+  
     return res;
 }
 
-- 
2.43.0


From a43ad977c4ab2fcf25b143110480931ebf567606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:07 +0000
Subject: [PATCH 140/152] fix: hamzaNorm: normalise words after a tab too

---
 src/hamzaNorm/hamzaNorm.pl | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/hamzaNorm/hamzaNorm.pl b/src/hamzaNorm/hamzaNorm.pl
index 5a0b4c1..9b62be7 100755
--- a/src/hamzaNorm/hamzaNorm.pl
+++ b/src/hamzaNorm/hamzaNorm.pl
@@ -86,9 +86,7 @@ exit 0;
 
 sub normalize{
     my ($text) = @_;
-    $text = " ".$text;    
-    $text =~ s/ (\330\242|\330\243|\330\245|\330\247)/ \330\247/g;
-    $text =~ s/^ //;
+    $text =~ s/(^|\s)(\330\242|\330\243|\330\245|\330\247)/$1\330\247/g;
     $text;
 }
 
-- 
2.43.0


From 582435ccca6d0a1e7e3e25fb65f90517334c9856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:21 +0000
Subject: [PATCH 141/152] fix: md-eval counts the metadata of speakers without
 SPKR-INFO under gender unknown, not under an empty name

---
 src/md-eval/md-eval.pl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/md-eval/md-eval.pl b/src/md-eval/md-eval.pl
index 9319bc1..437c90d 100755
--- a/src/md-eval/md-eval.pl
+++ b/src/md-eval/md-eval.pl
@@ -907,6 +907,7 @@ sub md_performance_analysis {
 		@spkrs = keys %{$type_counts->{$type}};
 		foreach $spkr (@spkrs) {
 		    my $gndr = $spkr_info->{$spkr}{GENDER};
+		    $gndr = "unknown" unless $gndr;
 		    foreach $subtype (keys %$subtypes) {
 			my $count = $type_counts->{$type}{$spkr}{$subtype};
 			next unless $count;
-- 
2.43.0


From a918be466fc3fd7aad127573afd716acc8f35e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:03 +0000
Subject: [PATCH 142/152] fix: md-eval scores nothing, not everything, when the
 no-score zones cover the whole evaluation region

---
 src/md-eval/md-eval.pl | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/md-eval/md-eval.pl b/src/md-eval/md-eval.pl
index 437c90d..b9a720c 100755
--- a/src/md-eval/md-eval.pl
+++ b/src/md-eval/md-eval.pl
@@ -2035,7 +2035,8 @@ sub speakers_match {
 sub add_collars_to_uem {
 
     my ($uem_eval, $ref_data) = @_;
-    my (@events, $event, $uem, $uem_score, $spkr, $spkr_seg, $tbeg, $evaluate);
+    my (@events, $event, $uem, $spkr, $spkr_seg, $tbeg, $evaluate);
+    my $uem_score = []; #nothing is scored unless it is found to be
 
     foreach $uem (@$uem_eval) {
 	push @events, {EVENT => "BEG", TIME => $uem->{TBEG}};
@@ -2073,7 +2074,8 @@ sub add_collars_to_uem {
 sub exclude_overlapping_speech_from_uem {
 
     my ($uem_data, $rttm_data) = @_;
-    my ($token, @spkr_events, $event, $spkr_cnt, $tbeg_overlap, $uem, @events, $uem_ex);
+    my ($token, @spkr_events, $event, $spkr_cnt, $tbeg_overlap, $uem, @events);
+    my $uem_ex = []; #nothing is scored unless it is found to be
 
 #overlapping speech computed from SPEAKER data
     foreach $token (@$rttm_data) {
@@ -2132,7 +2134,8 @@ sub exclude_overlapping_speech_from_uem {
 sub add_exclusion_zones_to_uem {
 
     my ($excluded_tokens, $uem_score, $rttm_data, $max_extend) = @_;
-    my (@events, $event, $uem, $uem_ex, $spkr, $spkr_seg, $tbeg, $evaluating, $token);
+    my (@events, $event, $uem, $spkr, $spkr_seg, $tbeg, $evaluating, $token);
+    my $uem_ex = []; #nothing is scored unless it is found to be
     my (@ns_events, $evl_cnt, $lex_cnt, $nsz_cnt, $tstart, $tstop);
     my ($tbeg_lex, $tbeg_nsz, $tend_lex, $tend_nsz, $tseg);
 
-- 
2.43.0


From 3c68bc10eaae94e8353f400fe0f899090a2c1d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:06 +0000
Subject: [PATCH 143/152] fix: sclite -S algo2 folds case unless -s is given

---
 src/sclite/align.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sclite/align.c b/src/sclite/align.c
index 9228bb9..eb6283e 100644
--- a/src/sclite/align.c
+++ b/src/sclite/align.c
@@ -240,8 +240,8 @@ PATH *infer_word_seg_algo2(TEXT *ref, TEXT *hyp, NETWORK *hnet, int case_sense,c
     }
 
     {
-        TEXT *refCC = (case_sense ? TEXT_strdup(TEXT_str_to_master(ref, 1)) : ref);
-        if ((refnet = Network_create_from_TEXT(ref, "Reference Net",
+        TEXT *refCC = (! case_sense ? TEXT_strdup(TEXT_str_to_master(ref, 1)) : ref);
+        if ((refnet = Network_create_from_TEXT(refCC, "Reference Net",
 					   print_WORD,
 					   equal_WORD2,
 					   release_WORD, null_alt_WORD,
@@ -252,14 +252,14 @@ PATH *infer_word_seg_algo2(TEXT *ref, TEXT *hyp, NETWORK *hnet, int case_sense,c
             fprintf(stderr,"Network_create_from_TEXT failed\n");
 	    exit(1);
         }
-        if (case_sense){
+        if (! case_sense){
             free_singarr(refCC, TEXT);
         }
     }
     
     if (hyp != (TEXT *)0){
-	TEXT *hypCC = (case_sense ? TEXT_strdup(TEXT_str_to_master(hyp, 1)) : hyp);
-	if ((hypnet = Network_create_from_TEXT(hyp,"Hypothesis Net",
+	TEXT *hypCC = (! case_sense ? TEXT_strdup(TEXT_str_to_master(hyp, 1)) : hyp);
+	if ((hypnet = Network_create_from_TEXT(hypCC,"Hypothesis Net",
 					       print_WORD,
 					       equal_WORD2,
 					       release_WORD, null_alt_WORD,
@@ -270,7 +270,7 @@ PATH *infer_word_seg_algo2(TEXT *ref, TEXT *hyp, NETWORK *hnet, int case_sense,c
     fprintf(stderr,"Network_create_from_TEXT failed\n");
 	    exit(1);
 	}
-        if (case_sense){
+        if (! case_sense){
            free_singarr(hypCC, TEXT);
         }
     } else 
-- 
2.43.0


From ae27d02b66e9a95d09cc6b2cae69593b2f0f4f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:06 +0000
Subject: [PATCH 144/152] fix: sclite -S null words do not use up the length of
 a lexicon word

---
 src/sclite/net_adt.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/sclite/net_adt.c b/src/sclite/net_adt.c
index 9754d71..3fc02be 100644
--- a/src/sclite/net_adt.c
+++ b/src/sclite/net_adt.c
@@ -622,8 +622,11 @@ void recursive_connect(NETWORK *net, int connect_factor, void *(*append)(void *,
 	    NETWORK_insert_arc_between_node(net,base_arc->from_node,
 					    p->arc->to_node,
 					    new_data);
-	recursive_connect(net,connect_factor-1,append,test,test_data,base_arc,
-			  p->arc,new_data);
+	/* a null word adds no letter to the sequence */
+	recursive_connect(net,
+			  net->arc_func.is_null_alt(p->arc->data) ?
+			  connect_factor : connect_factor-1,
+			  append,test,test_data,base_arc,p->arc,new_data);
 	if (! pass) net->arc_func.destroy(new_data);
     }
 }
@@ -651,7 +654,10 @@ int Network_fully_connect_cond(NETWORK *net, int connect_factor, void *(*append)
 	}
     }
     for (aa=0; aa<arcset.num; aa++) {
-	recursive_connect(net, connect_factor-1, append, test, test_data,
+	recursive_connect(net,
+			  net->arc_func.is_null_alt(arcset.arcs[aa]->data) ?
+			  connect_factor : connect_factor-1,
+			  append, test, test_data,
 			  arcset.arcs[aa],arcset.arcs[aa],
 			  arcset.arcs[aa]->data);
     }
-- 
2.43.0


From df658632a8bf5358a27c5a59361e32a508cb20cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:24 +0000
Subject: [PATCH 145/152] fix: sclite refuses -S together with -d instead of
 ignoring it

---
 src/sclite/sclite.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sclite/sclite.c b/src/sclite/sclite.c
index cb53ba2..13e612f 100644
--- a/src/sclite/sclite.c
+++ b/src/sclite/sclite.c
@@ -737,6 +737,9 @@ void proc_args(int argc, char **argv, char *prog, char **rname, char **rfmt, cha
     if (*char_align && (*use_diff ||
 		       (strcmp(*rfmt,"stm") == 0 && strcmp(*hfmt,"txt")==0)))
 	do_exit("Unable to do character alignments using diff\n",prog,1);
+
+    if (*infered_wordseg && *use_diff)
+	do_exit("Flags '-d' and '-S' are mutually exclusive\n",prog,1);
     
     if (*wwl_file != (char *)0 && *lm_file != (char *)0)
       do_exit("Flags '-L' and '-w' are mutually exclusive\n",prog,1);
-- 
2.43.0


From bac2a545200350400aba113e9855d73affee13bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:35 +0000
Subject: [PATCH 146/152] fix: slatreport counts every object, also those that
 begin together

---
 src/slatreport/slatreport.pl | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/slatreport/slatreport.pl b/src/slatreport/slatreport.pl
index 2f2df00..cf7697f 100755
--- a/src/slatreport/slatreport.pl
+++ b/src/slatreport/slatreport.pl
@@ -221,11 +221,12 @@ sub Compute
 					{
 						next if(! IsElement($n, $Nam));
 						
-						foreach my $TBEG (keys %{ $data->{$t}{$f}{$c}{$s}{$n} })
+						foreach my $object (@{ $data->{$t}{$f}{$c}{$s}{$n} })
 						{
-							my $TMID = $data->{$t}{$f}{$c}{$s}{$n}{$TBEG}{TMID};
-							my $TEND = $data->{$t}{$f}{$c}{$s}{$n}{$TBEG}{TEND};
-							my $TSLAT = $data->{$t}{$f}{$c}{$s}{$n}{$TBEG}{TSLAT};
+							my $TBEG = $object->{TBEG};
+							my $TMID = $object->{TMID};
+							my $TEND = $object->{TEND};
+							my $TSLAT = $object->{TSLAT};
 							
 							push(@statLacencyBeg, $TSLAT-$TBEG);
 							push(@statLacencyMid, $TSLAT-$TMID);
@@ -299,9 +300,8 @@ sub LoadRTTM
 		my $tdur = 0;
 		$tdur = $a[4] if($a[4] !~ /<NA>/);
 		
-		$h{$a[0]}{$a[1]}{$a[2]}{$a[6]}{$a[7]}{$a[3]}{TMID} = $a[3]+($tdur/2);
-		$h{$a[0]}{$a[1]}{$a[2]}{$a[6]}{$a[7]}{$a[3]}{TEND} = $a[3]+$tdur;
-		$h{$a[0]}{$a[1]}{$a[2]}{$a[6]}{$a[7]}{$a[3]}{TSLAT} = $a[9];
+		push(@{ $h{$a[0]}{$a[1]}{$a[2]}{$a[6]}{$a[7]} },
+		     { TBEG => $a[3], TMID => $a[3]+($tdur/2), TEND => $a[3]+$tdur, TSLAT => $a[9] });
 	}
 		
 	close(FILE);
-- 
2.43.0


From a8fdf403f430421be19d8490694c2d14036d62f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:35 +0000
Subject: [PATCH 147/152] fix: slatreport puts every latency in exactly one
 partition

---
 src/slatreport/slatreport.pl | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/slatreport/slatreport.pl b/src/slatreport/slatreport.pl
index cf7697f..e25b15f 100755
--- a/src/slatreport/slatreport.pl
+++ b/src/slatreport/slatreport.pl
@@ -354,20 +354,12 @@ sub frequency_distribution
 	for(my $i=0; $i<$partitions; $i++)
 	{
 		my $min_range = $min+$i*$range_iter;
-		my $max_range = $min_range+$range_iter;
+		my $max_range = $min+($i+1)*$range_iter;
 		my $key_range = ($min_range+$max_range)/2;
 		
-		my $range_max_use = $max_range;
-		
-		if($i == $partitions-1)
-		{
-			#last one, make sure we have the max elements
-			$range_max_use += $range_iter
-		}
-		
 		for (my $j=0; $j<scalar(@sorted_list); $j++)
 		{
-			if( ($sorted_list[$j] >= $min_range) && ($sorted_list[$j] < $range_max_use) )
+			if( ($sorted_list[$j] >= $min_range) && (($i == $partitions-1) || ($sorted_list[$j] < $max_range)) ) # the last one has the max elements
 			{
 				$hash{$i}{RANGE_MIN} = $min_range;
 				$hash{$i}{RANGE_MAX} = $max_range;
-- 
2.43.0


From 4b02b69f0900bd2bcbf0267be72be30263bb3012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:15 +0000
Subject: [PATCH 148/152] fix: chfilt keeps the end of a segment that another
 one lies within

---
 src/chfilt/chfilt.pl | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/chfilt/chfilt.pl b/src/chfilt/chfilt.pl
index 1dc91d5..620ed6f 100755
--- a/src/chfilt/chfilt.pl
+++ b/src/chfilt/chfilt.pl
@@ -813,8 +813,10 @@ if ($Format eq "stm"){
                 $nt = sprintf("%.2f",$bt - $shift);
                 die "Can't fix silence pad time" unless ($STMS[$i] =~ s/^(\S+\s+\S+\s+\S+\s+)\S+/$1$nt/);
             } 
-            $lastStmEnd{$chan} = $et;
-       	    $lastStmEndIndex{$chan} = $i;
+            if ($lastStmEndIndex{$chan} == $i || $lastStmEnd{$chan} < $et){
+                $lastStmEnd{$chan} = $et;
+                $lastStmEndIndex{$chan} = $i;
+            }
 #            print "     \$lastStmEnd{$chan} = $et\n";
         }
         foreach my $chan(sort(keys %lastStmEnd)){
@@ -846,6 +848,7 @@ if ($Format eq "stm"){
 		if ($id eq $lid && $chan eq $lchan && $spkr eq $lspkr && $lur eq $llur){
 		    chomp $ltext;
 		    chomp $text;
+		    $et = $lastStmEnd{$chan} if ($et < $lastStmEnd{$chan});
 		    $STMS[$lastStmEndIndex{$chan}] = 
 			"$id $chan $spkr $lbt $et $lur $ltext $text\n";
 		    splice (@STMS, $i, 1);
@@ -877,6 +880,7 @@ if ($Format eq "stm"){
 		my ($lid, $lchan, $lspkr, $lbt, $let, $llur, $ltext) = split(/\s+/,$STMS[$lastStmEndIndex{$chan}],7);
 		if ($id eq $lid && $chan eq $lchan){
 		    chomp $ltext;
+		    $et = $lastStmEnd{$chan} if ($et < $lastStmEnd{$chan});
 		    $STMS[$lastStmEndIndex{$chan}] = 
 			"$id $chan excluded_region $lbt $et $lur ignore_time_segment_in_scoring\n";
 		    splice (@STMS, $i, 1);
@@ -909,7 +913,7 @@ if ($Format eq "stm"){
                                        $lastStmEnd{$chan},$bt,""));
                  $i++;
              }
-             $lastStmEnd{$chan} = $et;
+             $lastStmEnd{$chan} = $et if ($lastStmEnd{$chan} < $et);
          }
          foreach my $chan(sort(keys %lastStmEnd)){
              if ($lastStmEnd{$chan} < $NewEndTime - 0.01){
-- 
2.43.0


From 56d11b72d1669ee20bd3029d5db76b32d6774ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:00 +0000
Subject: [PATCH 149/152] fix: chfilt -q, -t and -a add no line end to the text
 of a segment

---
 src/chfilt/chfilt.pl | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/chfilt/chfilt.pl b/src/chfilt/chfilt.pl
index 620ed6f..16302ff 100755
--- a/src/chfilt/chfilt.pl
+++ b/src/chfilt/chfilt.pl
@@ -1021,7 +1021,6 @@ sub Map_AArray{
 	    $out .= " ".$word;
 	}
     }
-    $out .= "\n";
     $out;
 }
 
@@ -1041,6 +1040,5 @@ sub AlternateHyphenWords{
 	}
 	$out .= " ".$word;
     }
-    $out .= "\n";
     $out;
 }
-- 
2.43.0


From aa16ffca25e639f56d84406a68295b3230e62723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:36 +0000
Subject: [PATCH 150/152] fix: chfilt -m: an acronym mark with no acronym made
 the filter run for ever

---
 src/chfilt/chfilt.pl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/chfilt/chfilt.pl b/src/chfilt/chfilt.pl
index 16302ff..5feacb6 100755
--- a/src/chfilt/chfilt.pl
+++ b/src/chfilt/chfilt.pl
@@ -440,9 +440,10 @@ foreach $_ (@Trans){
         s/\*(\S)/$1/g;              #remove ??? name markers? '*'
         s/\@(\S)/$1/g;              #remove ??? name markers? '@'
         s:<as/>[^<>]+</as>::ig;   #remove asides
+        s/~(?!\S)//g;               # a mark with no acronym
         while ($_ =~ /~/){          # Deal with acronyms
-            s/~(\S) /$1 /;
-            s/~(\S\'[sS]) /$1 /;       # Deal with a possessive acronym
+            s/~(\S)(?!\S)/$1/;
+            s/~(\S\'[sS])(?!\S)/$1/;   # Deal with a possessive acronym
             s/~(\S)(\S)/$1 ~$2/;
         } 
     }
-- 
2.43.0


From 930fb989bdf124888f264c73496de724db565cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:36 +0000
Subject: [PATCH 151/152] fix: chfilt -m: a possessive acronym after another
 one was split into its characters

---
 src/chfilt/chfilt.pl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chfilt/chfilt.pl b/src/chfilt/chfilt.pl
index 5feacb6..38900b2 100755
--- a/src/chfilt/chfilt.pl
+++ b/src/chfilt/chfilt.pl
@@ -444,7 +444,7 @@ foreach $_ (@Trans){
         while ($_ =~ /~/){          # Deal with acronyms
             s/~(\S)(?!\S)/$1/;
             s/~(\S\'[sS])(?!\S)/$1/;   # Deal with a possessive acronym
-            s/~(\S)(\S)/$1 ~$2/;
+            s/~(\S)(?!\'[sS](?!\S))(\S)/$1 ~$2/;
         } 
     }
 
-- 
2.43.0


From aefd882843b9b4bdf2301a6db54c354d1b773a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:02 +0000
Subject: [PATCH 152/152] fix: sclite ctm/ctm: the utterance id of a long file
 or channel name overflowed a buffer

---
 src/sclite/ctm2ctm.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sclite/ctm2ctm.c b/src/sclite/ctm2ctm.c
index cf1ea0f..e9c7a5c 100644
--- a/src/sclite/ctm2ctm.c
+++ b/src/sclite/ctm2ctm.c
@@ -17,7 +17,7 @@ SCORES *align_ctm_to_ctm(char *hyp_file, char *ref_file, char *set_title, int fe
     int ref_end, hyp_end, ref_begin, hyp_begin;
     int dbg = TRUE;
     int chunk;
-    char uttid[100];
+    char *uttid;
     int spkr;
     SCORES *scor;
     NETWORK *hnet, *rnet;
@@ -143,6 +143,8 @@ SCORES *align_ctm_to_ctm(char *hyp_file, char *ref_file, char *set_title, int fe
 		removals = 0;
 
 		/* create the utterance ID */
+		alloc_singarr(uttid,(strlen(chan_word->conv) +
+				     strlen(chan_word->turn) + 20),char);
 		sprintf(uttid,"(%s-%s-%04d)",chan_word->conv,
 			chan_word->turn,chunk);
 
@@ -194,6 +196,7 @@ SCORES *align_ctm_to_ctm(char *hyp_file, char *ref_file, char *set_title, int fe
 					      FALSE, case_sense, 
 					      (char *)uttid, fcorr,
 					      opt_del, time_align, wwl, lm_file);
+		free_singarr(uttid,char);
 		BF_SET(path->attrib,PA_HYP_WTIMES);
 		BF_SET(path->attrib,PA_REF_WTIMES);
 		if (ref->has_conf) BF_SET(path->attrib,PA_REF_CONF);
-- 
2.43.0

