From 01fb4a18515718715421cb71c122608071db0ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:51 +0000
Subject: [PATCH 01/19] fix: require the local-jupe privilege for a local JUPE
 without a target

'JUPE +server <expire> :<reason>' (four parameters, no target) set or removed a
jupe on this server without testing any privilege; only the form with a target
was checked.
---
 ircd/m_jupe.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ircd/m_jupe.c b/ircd/m_jupe.c
index 51f219f..1514328 100644
--- a/ircd/m_jupe.c
+++ b/ircd/m_jupe.c
@@ -239,7 +239,8 @@ int mo_jupe(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
       flags |= JUPE_LOCAL;
     } else if (!HasPriv(sptr, PRIV_JUPE))
       return send_reply(sptr, ERR_NOPRIVILEGES);
-  }
+  } else if (!HasPriv(sptr, PRIV_LOCAL_JUPE)) /* no target: a local jupe */
+    return send_reply(sptr, ERR_NOPRIVILEGES);
 
   ajupe = jupe_find(server);
 
-- 
2.43.0


From c6b31e086c38ea72886a33eb67433bd833d111de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:02 +0000
Subject: [PATCH 02/19] fix: drop operator-only server notices when a server
 removes operator status

---
 ircd/m_opmode.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ircd/m_opmode.c b/ircd/m_opmode.c
index 609c8cf..c9611e9 100644
--- a/ircd/m_opmode.c
+++ b/ircd/m_opmode.c
@@ -149,6 +149,8 @@ static void de_oper(struct Client *dptr)
       ClearServNotice(dptr);
       set_snomask(dptr, 0, SNO_SET);
     }
+    else
+      set_snomask(dptr, SNO_OPER, SNO_DEL);
     det_confs_butmask(dptr, CONF_CLIENT & ~CONF_OPERATOR);
     cli_max_sendq(dptr) = 0;
     cli_max_flood(dptr) = 0;
-- 
2.43.0


From 719318599121dc4751d2848272ba0d351d025ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:37 +0000
Subject: [PATCH 03/19] fix: honour user mode +R for TAGMSG to a user

---
 ircd/ircd_relay.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ircd/ircd_relay.c b/ircd/ircd_relay.c
index 57f02b0..50a8767 100644
--- a/ircd/ircd_relay.c
+++ b/ircd/ircd_relay.c
@@ -844,6 +844,7 @@ relay_private_tagmsg(struct Client *sptr, const char *name)
   }
   if ((!IsChannelService(acptr) &&
        check_target_limit(sptr, acptr, NULL)) ||
+      should_block_unauth_user(sptr, acptr) ||
       is_silenced(sptr, acptr))
     return;
 
@@ -899,6 +900,9 @@ relay_directed_tagmsg(struct Client *sptr, char *name, char *server)
     return;
   }
 
+  if (should_block_unauth_user(sptr, acptr))
+    return;
+
   if (sline_check_privmsg(sptr, acptr, "", MSG_PRIVATE))
     return;
 
@@ -974,6 +978,9 @@ server_relay_private_tagmsg(struct Client *sptr, const char *name)
   if (0 == (acptr = findNUser(name)) || !IsUser(acptr))
     return;
 
+  if (should_block_unauth_user(sptr, acptr))
+    return;
+
   if (is_silenced(sptr, acptr))
     return;
 
-- 
2.43.0


From 8acc88b07269880c36e95134fc475ff16e886918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:52 +0000
Subject: [PATCH 04/19] fix: send CAP NEW and CAP DEL to the connection in the
 highest slot too

---
 ircd/m_cap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ircd/m_cap.c b/ircd/m_cap.c
index 4f48c7b..07428d0 100644
--- a/ircd/m_cap.c
+++ b/ircd/m_cap.c
@@ -389,7 +389,7 @@ void cap_new(enum Capab cap)
     return;
   
   /* Iterate through all local clients */
-  for (i = 0; i < HighestFd; i++) {
+  for (i = 0; i <= HighestFd; i++) {
     if (!(acptr = LocalClientArray[i]))
       continue;
       
@@ -431,7 +431,7 @@ void cap_del(enum Capab cap)
   }
   
   /* Iterate through all local clients */
-  for (i = 0; i < HighestFd; i++) {
+  for (i = 0; i <= HighestFd; i++) {
     if (!(acptr = LocalClientArray[i]))
       continue;
       
-- 
2.43.0


From 217e74028e20a3680362d18ac12b59be0ae0cfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:52 +0000
Subject: [PATCH 05/19] fix: reset the sentalong marker of every connection
 when the counter wraps

---
 ircd/send.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ircd/send.c b/ircd/send.c
index b2715d4..3dd9afa 100644
--- a/ircd/send.c
+++ b/ircd/send.c
@@ -648,7 +648,7 @@ bump_sentalong(struct Client *one)
   if (!++sentalong_marker)
   {
     int ii;
-    for (ii = 0; ii < HighestFd; ++ii)
+    for (ii = 0; ii <= HighestFd; ++ii)
       if (LocalClientArray[ii])
         cli_sentalong(LocalClientArray[ii]) = 0;
     ++sentalong_marker;
-- 
2.43.0


From e474f4ba422106827459f3a24834cf86c1781774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:41 +0000
Subject: [PATCH 06/19] fix: end the SASL session in the session table on abort
 and timeout

---
 ircd/m_sasl.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ircd/m_sasl.c b/ircd/m_sasl.c
index 4bf054d..bdf5544 100644
--- a/ircd/m_sasl.c
+++ b/ircd/m_sasl.c
@@ -124,6 +124,7 @@ static void sasl_timeout_callback(struct Event* ev)
     
     /* Clear SASL session */
     sasl_stop_timeout(cptr);
+    sasl_session_remove(cli_sasl(cptr));
     cli_sasl(cptr) = 0;
   }
 }
@@ -177,6 +178,7 @@ int m_sasl(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
     /* SASL abort - stop timeout and clear session */
     if (cli_sasl(cptr)) {
       sasl_stop_timeout(cptr);
+      sasl_session_remove(cli_sasl(cptr));
       cli_sasl(cptr) = 0;
     }
     send_reply(cptr, ERR_SASLABORTED);
-- 
2.43.0


From a1638566eb2d235b0fa41165d2a076161e68de27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:40 +0000
Subject: [PATCH 07/19] fix: bound the account name a remote user mode line can
 store

---
 ircd/s_user.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ircd/s_user.c b/ircd/s_user.c
index 2bdce11..443958f 100644
--- a/ircd/s_user.c
+++ b/ircd/s_user.c
@@ -1242,6 +1242,8 @@ int set_user_mode(struct Client *cptr, struct Client *sptr, int parc,
                     account, cli_user(sptr)->acc_flags));
         }
       }
+      if (len > ACCOUNTLEN)
+        len = ACCOUNTLEN;
       ircd_strncpy(cli_user(sptr)->account, account, len);
   }
   if (!FlagHas(&setflags, FLAG_HIDDENHOST) && do_host_hiding && allow_modes != ALLOWMODES_DEFAULT)
-- 
2.43.0


From a04fb15c7477e61dbf193e06a78b516b7ae58683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:47 +0000
Subject: [PATCH 08/19] fix: TRACE showed the address of users with a hidden
 host to everyone

---
 ircd/m_trace.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ircd/m_trace.c b/ircd/m_trace.c
index 0915f51..d398775 100644
--- a/ircd/m_trace.c
+++ b/ircd/m_trace.c
@@ -229,13 +229,18 @@ void do_trace(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
            but anyone can see all the opers. */
         if ((IsAnOper(sptr) && (MyUser(sptr) ||
             !(dow && IsInvisible(acptr)))) || !dow || IsAnOper(acptr)) {
+          /* Only opers and the user itself see the address behind
+             a hidden host. */
+          int showip = (HasHiddenHost(acptr) && !IsAnOper(sptr)
+                        && sptr != acptr) ? HIDE_IP : SHOW_IP;
+
           if (IsAnOper(acptr))
             send_reply(sptr, RPL_TRACEOPERATOR, conClass,
-                       get_client_name(acptr, SHOW_IP),
+                       get_client_name(acptr, showip),
                        CurrentTime - cli_lasttime(acptr));
           else
             send_reply(sptr, RPL_TRACEUSER, conClass,
-                       get_client_name(acptr, SHOW_IP),
+                       get_client_name(acptr, showip),
                        CurrentTime - cli_lasttime(acptr));
         }
         break;
-- 
2.43.0


From d008da7fbd4b148f3e0aa1afdd4fd4c5dcb9165e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:20 +0000
Subject: [PATCH 09/19] fix: do not read past the parameters of a BURST mode
 string

A BURST whose mode string contains 'k' without a key made
netride_modes() compare the key against a null pointer.
---
 ircd/m_burst.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ircd/m_burst.c b/ircd/m_burst.c
index b4f4b40..d44e367 100644
--- a/ircd/m_burst.c
+++ b/ircd/m_burst.c
@@ -121,10 +121,14 @@ netride_modes(int parc, char **parv, const char *curr_key)
       result |= MODE_INVITEONLY;
       break;
     case 'k':
+      if (--parc < 1)
+        return -1;
       if (strcmp(curr_key, *++parv))
         result |= MODE_KEY;
       break;
     case 'l':
+      if (--parc < 1)
+        return -1;
       ++parv;
       break;
     case 'r':
-- 
2.43.0


From 4017152c575ab1e3774aae923a1d24d626faada5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:47 +0000
Subject: [PATCH 10/19] fix: require the start time in a user's RPING from a
 server

Without it the absent parameter was forwarded as "(null)".
---
 ircd/m_rping.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ircd/m_rping.c b/ircd/m_rping.c
index 71cf433..f356283 100644
--- a/ircd/m_rping.c
+++ b/ircd/m_rping.c
@@ -163,7 +163,7 @@ int ms_rping(struct Client* cptr, struct Client* sptr, int parc, char* parv[])
     }
   }
   else {
-    if (parc < 3) {
+    if (parc < 4) {
       return need_more_params(sptr, "RPING");
     }
     /*
-- 
2.43.0


From 0c4284509306abb0d46edca2c7da067d1f74f07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:13 +0000
Subject: [PATCH 11/19] fix: swapped arguments of an ident debug message

The descriptor and the pointer were passed to each other's conversion.
---
 ircd/s_auth.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ircd/s_auth.c b/ircd/s_auth.c
index 20ec3b3..910e900 100644
--- a/ircd/s_auth.c
+++ b/ircd/s_auth.c
@@ -879,7 +879,7 @@ static void read_auth_reply(struct AuthRequest* auth)
     Debug((DEBUG_INFO, "Username: %s", username));
   }
 
-  Debug((DEBUG_INFO, "Deleting auth [%d] socket %p", auth, cli_fd(auth->client)));
+  Debug((DEBUG_INFO, "Deleting auth %p [%d] socket", auth, cli_fd(auth->client)));
   close(s_fd(&auth->socket));
   socket_del(&auth->socket);
   s_fd(&auth->socket) = -1;
-- 
2.43.0


From 38b51a9d573e8deb176b2f5283b3c29dab8a8ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:53 +0000
Subject: [PATCH 12/19] fix: keep DESTRUCT of local channels off the network

An empty local channel was announced to every server when it expired, and
a server that had a channel of the same name answered with its members.
---
 ircd/destruct_event.c | 5 +++--
 ircd/m_destruct.c     | 4 ++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/ircd/destruct_event.c b/ircd/destruct_event.c
index b16fd98..100e96f 100644
--- a/ircd/destruct_event.c
+++ b/ircd/destruct_event.c
@@ -148,8 +148,9 @@ void exec_expired_destruct_events(struct Event* ev)
     while (*list_bottom && TStime() >= (*list_bottom)->expires)
     {
       struct Channel* chptr = (*list_bottom)->chptr;
-      /* Send DESTRUCT message */
-      sendcmdto_serv_butone(&me, CMD_DESTRUCT, 0, "%s %Tu", chptr->chname, chptr->creationtime);
+      /* Send DESTRUCT message, unless nobody else knows the channel */
+      if (!IsLocalChannel(chptr->chname))
+        sendcmdto_serv_butone(&me, CMD_DESTRUCT, 0, "%s %Tu", chptr->chname, chptr->creationtime);
       remove_destruct_event(chptr);
       destruct_channel(chptr);
     }
diff --git a/ircd/m_destruct.c b/ircd/m_destruct.c
index 032237a..8a0f5d2 100644
--- a/ircd/m_destruct.c
+++ b/ircd/m_destruct.c
@@ -99,6 +99,10 @@ int ms_destruct(struct Client* cptr, struct Client* sptr, int parc, char* parv[]
   if (parc < 3 || EmptyString(parv[2]))
     return need_more_params(sptr,"DESTRUCT");
 
+  /* Local channels are none of their business. */
+  if (IsLocalChannel(parv[1]))
+    return 0;
+
   chanTS = atoi(parv[2]);
 
   /* Ignore DESTRUCT messages for non-existing channels. */
-- 
2.43.0


From 1ae6f62e9d908618eca1113f288614ac20494e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:53 +0000
Subject: [PATCH 13/19] fix: do not take a BURST for a local channel

---
 ircd/m_burst.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ircd/m_burst.c b/ircd/m_burst.c
index d44e367..5341271 100644
--- a/ircd/m_burst.c
+++ b/ircd/m_burst.c
@@ -223,7 +223,7 @@ int ms_burst(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
   if (parc < 3)
     return protocol_violation(sptr,"Too few parameters for BURST");
   
-  if (!IsChannelName(parv[1]))
+  if (!IsGlobalChannel(parv[1]))
     return protocol_violation(sptr, "Invalid channel name in BURST");
 
   if (!(chptr = get_channel(sptr, parv[1], CGT_CREATE)))
-- 
2.43.0


From 20390a8a4934a706e453809e360f6fc22c2f35fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:52 +0000
Subject: [PATCH 14/19] fix: pass on the deactivation of a jupe that is
 deactivated here

A jupe that an operator had deactivated locally took the network's
deactivation, but did not propagate it to the other servers.
---
 ircd/jupe.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ircd/jupe.c b/ircd/jupe.c
index 243ae62..49dce41 100644
--- a/ircd/jupe.c
+++ b/ircd/jupe.c
@@ -256,7 +256,8 @@ jupe_deactivate(struct Client *cptr, struct Client *sptr, struct Jupe *jupe,
 	jupe->ju_lastmod = lastmod;
     }
 
-    if ((saveflags & JUPE_ACTMASK) != JUPE_ACTIVE)
+    if ((flags & JUPE_LOCAL) ? (saveflags & JUPE_ACTMASK) != JUPE_ACTIVE
+	: !(saveflags & JUPE_ACTIVE))
       return 0; /* was inactive to begin with */
   }
 
-- 
2.43.0


From ac5c3892aaaebc5ad49b732d3c3d9cc498a1d484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:50 +0000
Subject: [PATCH 15/19] fix: clear limit, key and passwords when a burst with
 an older timestamp wipes a channel

The modes were announced as removed to the members (and only if the burst
had a mode string) but stayed in force on this server.
---
 ircd/channel.c | 15 ---------------
 ircd/m_burst.c | 25 +++++++++++++++++++++++++
 2 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/ircd/channel.c b/ircd/channel.c
index fb58324..92fdd7b 100644
--- a/ircd/channel.c
+++ b/ircd/channel.c
@@ -3582,21 +3582,6 @@ mode_parse(struct ModeBuf *mbuf, struct Client *cptr, struct Client *sptr,
     state.chptr->mode.mode = t_mode;
   }
 
-  if (state.flags & MODE_PARSE_WIPEOUT) {
-    if (state.chptr->mode.limit && !(state.done & DONE_LIMIT))
-      modebuf_mode_uint(state.mbuf, MODE_DEL | MODE_LIMIT,
-			state.chptr->mode.limit);
-    if (*state.chptr->mode.key && !(state.done & DONE_KEY_DEL))
-      modebuf_mode_string(state.mbuf, MODE_DEL | MODE_KEY,
-			  state.chptr->mode.key, 0);
-    if (*state.chptr->mode.upass && !(state.done & DONE_UPASS_DEL))
-      modebuf_mode_string(state.mbuf, MODE_DEL | MODE_UPASS,
-			  state.chptr->mode.upass, 0);
-    if (*state.chptr->mode.apass && !(state.done & DONE_APASS_DEL))
-      modebuf_mode_string(state.mbuf, MODE_DEL | MODE_APASS,
-			  state.chptr->mode.apass, 0);
-  }
-
   if (state.done & DONE_BANCLEAN) /* process bans */
     mode_process_bans(&state);
 
diff --git a/ircd/m_burst.c b/ircd/m_burst.c
index 5341271..369d7cb 100644
--- a/ircd/m_burst.c
+++ b/ircd/m_burst.c
@@ -142,6 +142,24 @@ netride_modes(int parc, char **parv, const char *curr_key)
   return result;
 }
 
+/** Wipe out a key or password of a channel that was created earlier
+ * elsewhere.
+ * @param[in,out] mbuf Mode buffer to announce the change with.
+ * @param[in] mode MODE_KEY, MODE_UPASS or MODE_APASS.
+ * @param[in,out] value Current value, empty if it is not set.
+ */
+static void
+wipe_mode_string(struct ModeBuf *mbuf, unsigned int mode, char *value)
+{
+  char *copy;
+
+  if (!*value)
+    return;
+  DupString(copy, value);
+  modebuf_mode_string(mbuf, MODE_DEL | mode, copy, 1);
+  *value = '\0';
+}
+
 /*
  * ms_burst - server message handler
  *
@@ -348,6 +366,13 @@ int ms_burst(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
     chptr->mode.mode &= MODE_BURSTADDED | MODE_WASDELJOINS;
 
     /* wipeout any limit and keys that are set */
+    if (chptr->mode.limit) {
+      modebuf_mode_uint(mbuf, MODE_DEL | MODE_LIMIT, chptr->mode.limit);
+      chptr->mode.limit = 0;
+    }
+    wipe_mode_string(mbuf, MODE_KEY, chptr->mode.key);
+    wipe_mode_string(mbuf, MODE_UPASS, chptr->mode.upass);
+    wipe_mode_string(mbuf, MODE_APASS, chptr->mode.apass);
     parse_flags |= (MODE_PARSE_SET | MODE_PARSE_WIPEOUT);
 
     /* mark bans for wipeout */
-- 
2.43.0


From 90c8e46fc9fa544c8efb84953b5e8120698bcdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:01 +0000
Subject: [PATCH 16/19] fix: drop a pending destruction when the channel itself
 is freed

At the end of a burst an empty channel is destroyed at once; if its
destruction had been scheduled before, the event kept a pointer to it.
---
 ircd/channel.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ircd/channel.c b/ircd/channel.c
index 92fdd7b..9a51191 100644
--- a/ircd/channel.c
+++ b/ircd/channel.c
@@ -400,6 +400,12 @@ int destruct_channel(struct Channel* chptr)
     free_ban(ban);
   }
   
+  /*
+   * A pending destruction must not outlive the channel
+   */
+  if (chptr->destruct_event)
+    remove_destruct_event(chptr);
+
   /*
    * Clean up S-line hold queue entries for this channel
    */
-- 
2.43.0


From 1cae4fbc2385cf0d7772e5bd64445d483d1e85aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:27 +0000
Subject: [PATCH 17/19] fix: do not announce the removal of a key with an empty
 parameter

The mode buffer refers to the key, which is cleared before the buffer is
flushed, so the members saw MODE with the parameters shifted.
---
 ircd/m_join.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ircd/m_join.c b/ircd/m_join.c
index 7a925e6..6d5f534 100644
--- a/ircd/m_join.c
+++ b/ircd/m_join.c
@@ -410,7 +410,8 @@ int ms_join(struct Client *cptr, struct Client *sptr, int parc, char *parv[])
 
 	chptr->creationtime = creation;
         /* Wipe out the current modes on the channel. */
-        modebuf_init(&mbuf, sptr, cptr, chptr, MODEBUF_DEST_CHANNEL | MODEBUF_DEST_HACK3);
+        modebuf_init(&mbuf, sptr, cptr, chptr, MODEBUF_DEST_CHANNEL |
+                     MODEBUF_DEST_NOKEY | MODEBUF_DEST_HACK3);
 
         modebuf_mode(&mbuf, MODE_DEL | chptr->mode.mode);
         chptr->mode.mode &= MODE_BURSTADDED | MODE_WASDELJOINS;
-- 
2.43.0


From ba53c1a632ff4daab2263a0978d18fda6794cc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:57 +0000
Subject: [PATCH 18/19] fix: do not crash on a default LIST parameter that
 needs an operator

---
 ircd/m_list.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ircd/m_list.c b/ircd/m_list.c
index b43ab15..66e70c1 100644
--- a/ircd/m_list.c
+++ b/ircd/m_list.c
@@ -255,7 +255,7 @@ param_parse(struct Client *sptr, const char *param, struct ListingArgs *args,
 
     case 'S':
     case 's':
-      if (!IsAnOper(sptr) || !HasPriv(sptr, PRIV_LIST_CHAN))
+      if (!sptr || !IsAnOper(sptr) || !HasPriv(sptr, PRIV_LIST_CHAN))
         return show_usage(sptr);
 
       args->flags |= LISTARG_SHOWSECRET;
@@ -267,7 +267,7 @@ param_parse(struct Client *sptr, const char *param, struct ListingArgs *args,
 
     case 'M':
     case 'm':
-      if (!IsAnOper(sptr) || !HasPriv(sptr, PRIV_LIST_CHAN))
+      if (!sptr || !IsAnOper(sptr) || !HasPriv(sptr, PRIV_LIST_CHAN))
         return show_usage(sptr);
 
       args->flags |= LISTARG_SHOWMODES;
-- 
2.43.0


From f0ce0f429498997a5767ef964591631415949876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:28 +0000
Subject: [PATCH 19/19] fix: do not crash on IAUTH messages without their
 parameters

---
 ircd/s_auth.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ircd/s_auth.c b/ircd/s_auth.c
index 910e900..db267ee 100644
--- a/ircd/s_auth.c
+++ b/ircd/s_auth.c
@@ -2334,7 +2334,7 @@ static int iauth_cmd_kill(struct IAuth *iauth, struct Client *cli,
 static int iauth_cmd_usermode(struct IAuth *iauth, struct Client *cli,
                               int parc, char **params)
 {
-  if (params[0][0] == '+')
+  if (!EmptyString(params[0]) && params[0][0] == '+')
   {
     set_user_mode(cli, cli, parc + 2, params - 2, ALLOWMODES_ANY);
   }
@@ -2479,10 +2479,9 @@ static void iauth_parse(struct IAuth *iauth, char *message)
     handler(iauth, NULL, parc, params);
   } else {
     /* Try to find the client associated with the request. */
-    id = strtol(params[0], NULL, 10);
     if (parc < 3)
       sendto_iauth(NULL, "E Missing :Need <id> <ip> <port>");
-    else if (id < 0 || id > HighestFd || !(cli = LocalClientArray[id]))
+    else if ((id = strtol(params[0], NULL, 10)) < 0 || id > HighestFd || !(cli = LocalClientArray[id]))
       /* Client no longer exists (or never existed). */
       sendto_iauth(NULL, "E Gone :[%s %s %s]", params[0], params[1],
 		   params[2]);
-- 
2.43.0

