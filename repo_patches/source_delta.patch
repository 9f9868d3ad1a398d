From ac47b735a11fe99359f21686c44b1c456d2d7d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:08 +0000
Subject: [PATCH 01/87] fix: ACK for a failed INVITE must carry the INVITE's
 Route set

---
 sippy/SipRequest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sippy/SipRequest.py b/sippy/SipRequest.py
index 8657bc9..1fb1d50 100644
--- a/sippy/SipRequest.py
+++ b/sippy/SipRequest.py
@@ -137,6 +137,7 @@ class SipRequest(SipMsg):
                           fr0m = self.getHFBCopy('from'), to = to, \
                           via = self.getHFBCopy('via'), callid = self.getHFBCopy('call-id'), \
                           cseq = self.getHFBody('cseq').getCSeqNum(), maxforwards = maxforward, \
+                          routes = self.getHFBCopys('route'), target = self.getTarget(), \
                           user_agent = self.user_agent)
 
     def genCANCEL(self):
-- 
2.43.0


From d31b14981f0659d5ac35f63252d824f5dc8f4775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 02/87] fix: ACK for an answered re-INVITE must follow the
 dialog's route set

---
 sippy/SipTransactionManager.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index 7f520b4..53d0ec7 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -499,6 +499,7 @@ class SipTransactionManager(object):
                     # Prepare and send ACK if necessary
                     fcode = msg.getSCode()[0]
                     tag = msg.getHFBody('to').getTag()
+                    in_dialog = t.ack.getHFBody('to').getTag() != None
                     if tag != None:
                         t.ack.getHFBody('to').setTag(tag)
                     rAddr = None
@@ -510,7 +511,18 @@ class SipTransactionManager(object):
                             rTarget = None
                         routes = [x.getCopy() for x in msg.getHFBodys('record-route')]
                         routes.reverse()
-                        if len(routes) > 0:
+                        oroutes = t.ack.getHFBodys('route')
+                        if in_dialog and len(routes) == 0 and len(oroutes) > 0:
+                            # Established dialog: the route set is the one
+                            # the INVITE went out with
+                            routes = oroutes
+                            rAddr = t.ack.getTarget()
+                            if rAddr[0] != routes[0].getAddr():
+                                # Strict router, keep it in the R-URI
+                                if rTarget != None:
+                                    routes[-1] = SipRoute(address = SipAddress(url = rTarget))
+                                rTarget = None
+                        elif len(routes) > 0:
                             if not routes[0].getUrl().lr:
                                 if rTarget != None:
                                     routes.append(SipRoute(address = SipAddress(url = rTarget)))
-- 
2.43.0


From b8d920b82489140722a8914a56cf406196531ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 03/87] fix: CANCEL for an INVITE that already has a final
 response must get 200

---
 sippy/SipTransactionManager.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index 53d0ec7..9b1622a 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -612,6 +612,12 @@ class SipTransactionManager(object):
         else:
             tid = msg.getTId(wTTG = True)
         t = self.tserver.get(tid, None)
+        if t == None and msg.getMethod() == 'CANCEL':
+            # Completed INVITE is keyed by its To tag, look it up by branch
+            for t1 in self.tserver.values():
+                if t1.method == 'INVITE' and t1.tid[:-1] == tid[:-1] and t1.branch == tid[-1]:
+                    t = t1
+                    break
         if t != None:
             #print('existing transaction')
             if msg.getMethod() == t.method:
-- 
2.43.0


From 8887f7733cfd251aa160de7f2e1b6f5589d2cb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 04/87] fix: copying a SIP URI must keep its scheme and not
 share its headers

---
 sippy/SipURL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/SipURL.py b/sippy/SipURL.py
index 6c0ecfd..cbdf49f 100644
--- a/sippy/SipURL.py
+++ b/sippy/SipURL.py
@@ -291,9 +291,9 @@ class SipURL(object):
 
     def getCopy(self):
         return SipURL(username = self.username, password = self.password, host = self.host, port = self.port, \
-          headers = self.headers, usertype = self.usertype, transport = self.transport, ttl = self.ttl, \
+          headers = None if self.headers is None else dict(self.headers), usertype = self.usertype, transport = self.transport, ttl = self.ttl, \
           maddr = self.maddr, method = self.method, tag = self.tag, other = list(self.other), \
-          userparams = list(self.userparams), lr = self.lr)
+          userparams = list(self.userparams), lr = self.lr, scheme = self.scheme)
 
     def getHost(self):
         return self.host
-- 
2.43.0


From cb1211e927c9c3e5e179548c8d9d56c670c2a63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 05/87] fix: compact forms of Supported and Referred-By must be
 recognised

---
 sippy/SipReferredBy.py | 2 +-
 sippy/SipSupported.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/SipReferredBy.py b/sippy/SipReferredBy.py
index 1677f7f..63d39e5 100644
--- a/sippy/SipReferredBy.py
+++ b/sippy/SipReferredBy.py
@@ -27,4 +27,4 @@
 from sippy.SipAddressHF import SipAddressHF
 
 class SipReferredBy(SipAddressHF):
-    hf_names = ('referred-by',)
+    hf_names = ('referred-by', 'b')
diff --git a/sippy/SipSupported.py b/sippy/SipSupported.py
index 829e95d..ad772b7 100644
--- a/sippy/SipSupported.py
+++ b/sippy/SipSupported.py
@@ -29,7 +29,7 @@ from sippy.SipGenericHF import SipGenericHF
 from functools import reduce
 
 class SipSupported(SipGenericHF):
-    hf_names = ('supported',)
+    hf_names = ('supported', 'k')
     caps = None
 
     def __init__(self, body = None, caps = None):
-- 
2.43.0


From 73209ecc970a6ba744eccd2531f71635ff11690a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 06/87] fix: copy of a not yet parsed Warning must keep its
 value

---
 sippy/SipWarning.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sippy/SipWarning.py b/sippy/SipWarning.py
index c429c78..0a248b2 100644
--- a/sippy/SipWarning.py
+++ b/sippy/SipWarning.py
@@ -60,4 +60,6 @@ class SipWarning(SipGenericHF):
         return '%d %s "%s"' % (self.code, self.agent, self.text)
 
     def getCopy(self):
+        if not self.parsed:
+            return self.__class__(self.body)
         return self.__class__(cself = self)
-- 
2.43.0


From 61c497035b8828b3e4fbc797c5b1d6a083a5f269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 07/87] fix: address headers must honour quoted strings,
 whitespace and sips: addr-spec

---
 sippy/SipAddress.py   | 65 +++++++++++++++++++------------------------
 sippy/SipAddressHF.py | 24 +++-------------
 sippy/SipGenericHF.py | 28 +++++++++++++++++++
 3 files changed, 60 insertions(+), 57 deletions(-)

diff --git a/sippy/SipAddress.py b/sippy/SipAddress.py
index 866f01d..2e16b5e 100644
--- a/sippy/SipAddress.py
+++ b/sippy/SipAddress.py
@@ -25,6 +25,7 @@
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 from sippy.SipURL import SipURL
+from sippy.SipGenericHF import split_unquoted
 try:
     from string import maketrans
     needquotes = lambda x, y: not x.encode().translate(y).isalnum()
@@ -34,13 +35,12 @@ except ImportError:
 
 def findquotes(s, pos = 1):
     rval = []
-    while True:
-        pos1 = s.find('"', pos)
-        if pos1 == -1:
-            break
-        pos = pos1 + 1
-        if pos1 == 0 or s[pos1 - 1] != '\\':
-            rval.append(pos1)
+    while pos < len(s):
+        if s[pos] == '\\':
+            pos += 1
+        elif s[pos] == '"':
+            rval.append(pos)
+        pos += 1
     return rval
 
 class SipAddress(object):
@@ -67,28 +67,18 @@ class SipAddress(object):
                 self.hadbrace = hadbrace
             return
         # simple 'sip:foo' case
-        if address.lower().startswith('sip:') and address.find('<') == -1:
+        if address.lower().startswith(('sip:', 'sips:')) and len(split_unquoted(address, '<')) == 1:
             parts = address.split(';', 1)
-            self.url = SipURL(parts[0], relaxedparser = relaxedparser)
+            self.url = SipURL(parts[0].strip(), relaxedparser = relaxedparser)
             if len(parts) == 2:
-                for l in parts[1].split(';'):
-                    if not l:
-                        continue
-                    k_v = l.split('=', 1)
-                    if len(k_v) == 2:
-                        k, v = k_v
-                    else:
-                        k = k_v[0]
-                        v = None
-                    self.params[k] = v
-                    if self.params_order.count(k) > 0:
-                        self.params_order.remove(k)
-                    self.params_order.append(k)
+                self.parseParams(parts[1])
             self.hadbrace = False
             return
         if address.startswith('"'):
             qpos = findquotes(address)
             url = None
+            if len(qpos) == 0:
+                raise ValueError('Unterminated display name: %s' % address)
             if len(qpos) == 1:
                 self.name = address[1:qpos[0]]
                 url = address[qpos[0] + 1:].strip()
@@ -110,21 +100,22 @@ class SipAddress(object):
             self.name = self.name.strip()
         url, paramstring = url.split('>', 1)
         self.url = SipURL(url, relaxedparser = relaxedparser)
-        paramstring = paramstring.strip()
-        if paramstring:
-            for l in paramstring.split(';'):
-                if not l:
-                    continue
-                k_v = l.split('=', 1)
-                if len(k_v) == 2:
-                    k, v = k_v
-                else:
-                    k = k_v[0]
-                    v = None
-                self.params[k] = v
-                if self.params_order.count(k) > 0:
-                    self.params_order.remove(k)
-                self.params_order.append(k)
+        self.parseParams(paramstring)
+
+    def parseParams(self, paramstring):
+        for l in split_unquoted(paramstring, ';'):
+            k_v = [x.strip() for x in l.split('=', 1)]
+            if not k_v[0]:
+                continue
+            if len(k_v) == 2:
+                k, v = k_v
+            else:
+                k = k_v[0]
+                v = None
+            self.params[k] = v
+            if self.params_order.count(k) > 0:
+                self.params_order.remove(k)
+            self.params_order.append(k)
 
     def __str__(self):
         return self.localStr()
diff --git a/sippy/SipAddressHF.py b/sippy/SipAddressHF.py
index fa17d9b..3940cc7 100644
--- a/sippy/SipAddressHF.py
+++ b/sippy/SipAddressHF.py
@@ -24,7 +24,7 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-from sippy.SipGenericHF import SipGenericHF
+from sippy.SipGenericHF import SipGenericHF, split_unquoted
 from sippy.SipAddress import SipAddress
 from sippy.ESipHeaderCSV import ESipHeaderCSV
 
@@ -35,25 +35,9 @@ class SipAddressHF(SipGenericHF):
     def __init__(self, body = None, address = None):
         SipGenericHF.__init__(self, body)
         if body is not None:
-            csvs = []
-            pidx = 0
-            while 1:
-                idx = body.find(',', pidx)
-                if idx == -1:
-                    break
-                onum = body[:idx].count('<')
-                cnum = body[:idx].count('>')
-                qnum = body[:idx].count('"')
-                if (onum == 0 and cnum == 0 and qnum == 0) or (onum > 0 and \
-                  onum == cnum and (qnum % 2 == 0)):
-                    csvs.append(body[:idx])
-                    body = body[idx + 1:]
-                    pidx = 0
-                else:
-                    pidx = idx + 1
-            if (len(csvs) > 0):
-                csvs.append(body)
-                raise ESipHeaderCSV(None, csvs)
+            csvs = split_unquoted(body, ',', braces = True)
+            if len(csvs) > 1:
+                raise ESipHeaderCSV(None, [x.strip() for x in csvs])
         else:
             self.parsed = True
             self.address = address
diff --git a/sippy/SipGenericHF.py b/sippy/SipGenericHF.py
index 7be1523..4987f4d 100644
--- a/sippy/SipGenericHF.py
+++ b/sippy/SipGenericHF.py
@@ -24,6 +24,34 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+def split_unquoted(s, sep, braces = False):
+    """
+    Split the string s at every occurence of the character sep that is
+    outside of quoted strings and, when the braces is set, of <...>.
+    """
+    parts = []
+    start = i = depth = 0
+    inquotes = False
+    while i < len(s):
+        c = s[i]
+        if inquotes:
+            if c == '\\':
+                i += 1
+            elif c == '"':
+                inquotes = False
+        elif c == '"':
+            inquotes = True
+        elif braces and c == '<':
+            depth += 1
+        elif braces and c == '>':
+            depth -= 1
+        elif c == sep and depth == 0:
+            parts.append(s[start:i])
+            start = i + 1
+        i += 1
+    parts.append(s[start:])
+    return parts
+
 class SipGenericHF(object):
     hf_names = None	# Set this in each subclass!!
     body = None
-- 
2.43.0


From f20b11ed8c834e7fe813a1cf979114ffb90fcd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 08/87] fix: Reason must accept extensions, absent cause,
 quoted text and lists

---
 sippy/SipReason.py | 48 ++++++++++++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/sippy/SipReason.py b/sippy/SipReason.py
index cf338ad..675978a 100644
--- a/sippy/SipReason.py
+++ b/sippy/SipReason.py
@@ -24,7 +24,8 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-from sippy.SipGenericHF import SipGenericHF
+from sippy.SipGenericHF import SipGenericHF, split_unquoted
+from sippy.ESipHeaderCSV import ESipHeaderCSV
 
 class SipReason(SipGenericHF):
     '''
@@ -35,8 +36,15 @@ class SipReason(SipGenericHF):
     cause = None
     reason = None
 
+    otherparams = None
+
     def __init__(self, body = None, protocol = None, cause = None, reason = None):
+        if body is not None:
+            csvs = split_unquoted(body, ',')
+            if len(csvs) > 1:
+                raise ESipHeaderCSV(None, [x.strip() for x in csvs])
         SipGenericHF.__init__(self, body)
+        self.otherparams = []
         if body is None:
             self.parsed = True
             self.protocol = protocol
@@ -44,34 +52,40 @@ class SipReason(SipGenericHF):
             self.reason = reason
 
     def parse(self):
-        protocol, reason_params = self.body.split(';', 1)
+        protocol, *reason_params = split_unquoted(self.body, ';')
         self.protocol = protocol.strip()
-        while len(reason_params:=reason_params.lstrip()) > 0:
-            rp_name, reason_params = (p:=reason_params.split('=', 1))[0], p[1].lstrip() if len(p) > 1 else ''
-            assert rp_name in ('cause', 'text')
-            if rp_name == 'text' and reason_params.startswith('"'):
-                rp_value, reason_params = (p:=reason_params[1:].split('"', 1))[0], p[1] if len(p) > 1 else ''
-                reason_params = '' if len(p:=reason_params.split(';', 1)) == 1 else p[1]
-            else:
-                rp_value, reason_params = (p:=reason_params.split(';', 1))[0], p[1] if len(p) > 1 else ''
-            if rp_name == 'cause':
+        self.otherparams = []
+        for param in reason_params:
+            rp_name, *rp_value = [x.strip() for x in param.split('=', 1)]
+            rp_value = rp_value[0] if len(rp_value) > 0 else None
+            if rp_name == 'cause' and rp_value is not None:
                 self.cause = int(rp_value)
-            elif rp_name == 'text':
+            elif rp_name == 'text' and rp_value is not None:
+                if len(rp_value) > 1 and rp_value[0] == '"' and rp_value[-1] == '"':
+                    rp_value = rp_value[1:-1]
                 self.reason = rp_value
-        assert(self.cause is not None)
+            elif len(rp_name) > 0:
+                self.otherparams.append((rp_name, rp_value))
         self.parsed = True
 
     def __str__(self):
         if not self.parsed:
             return self.body
-        if self.reason == None:
-            return '%s; cause=%d' % (self.protocol, self.cause)
-        return '%s; cause=%d; text="%s"' % (self.protocol, self.cause, self.reason)
+        s = self.protocol
+        if self.cause is not None:
+            s += '; cause=%d' % self.cause
+        if self.reason is not None:
+            s += '; text="%s"' % self.reason
+        for name, value in self.otherparams:
+            s += '; ' + name if value is None else '; %s=%s' % (name, value)
+        return s
 
     def getCopy(self):
         if not self.parsed:
             return SipReason(self.body)
-        return SipReason(protocol = self.protocol, cause = self.cause, reason = self.reason)
+        copy = SipReason(protocol = self.protocol, cause = self.cause, reason = self.reason)
+        copy.otherparams = self.otherparams[:]
+        return copy
 
 if __name__ == '__main__':
     ours = 'Reason: Q.850; cause=31; text="db4e8de3-ef1e-4427-b6b8-afc339de9f0d;Callee only had Trouter endpoints registered and PNH got delivery errors from all of them."'
-- 
2.43.0


From b3da8c19adc1c6443ed46fe9fafff92e9d54e8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:29 +0000
Subject: [PATCH 09/87] fix: Via, Replaces and Content-Type must honour quoted
 strings and whitespace in parameters

---
 sippy/SipContentType.py | 14 +++++++-------
 sippy/SipReplaces.py    |  2 +-
 sippy/SipVia.py         |  8 +++++---
 3 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/sippy/SipContentType.py b/sippy/SipContentType.py
index 9c7bb43..f6557e1 100644
--- a/sippy/SipContentType.py
+++ b/sippy/SipContentType.py
@@ -24,7 +24,7 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-from sippy.SipGenericHF import SipGenericHF
+from sippy.SipGenericHF import SipGenericHF, split_unquoted
 
 class SipContentType(SipGenericHF):
     hf_names = ('content-type', 'c')
@@ -35,13 +35,13 @@ class SipContentType(SipGenericHF):
         SipGenericHF.__init__(self, body)
 
     def parse(self):
-        parts = self.body.split(';')
+        parts = [x.strip() for x in split_unquoted(self.body, ';')]
         self.name = parts.pop(0)
-        params = []
+        self.params = {}
         for part in parts:
-            param = part.split('=', 1)
-            params.append(param)
-        self.params = dict(params)
+            k, *v = [x.strip() for x in part.split('=', 1)]
+            if len(k) > 0:
+                self.params[k] = v[0] if len(v) > 0 else None
         self.parsed = True
 
     def getCanName(self, name, compact = False):
@@ -62,7 +62,7 @@ class SipContentType(SipGenericHF):
         if not self.parsed:
             return super().__str__()
         s = [self.name,]
-        s += [f'{k}={v}' for k, v in self.params.items()]
+        s += [k if v is None else f'{k}={v}' for k, v in self.params.items()]
         return ';'.join(s)
 
 if __name__ == '__main__':
diff --git a/sippy/SipReplaces.py b/sippy/SipReplaces.py
index e305574..a2d05ef 100644
--- a/sippy/SipReplaces.py
+++ b/sippy/SipReplaces.py
@@ -50,7 +50,7 @@ class SipReplaces(SipGenericHF):
 
     def parse(self):
         self.params = []
-        params = self.body.split(';')
+        params = [x.strip() for x in self.body.split(';')]
         self.call_id = params.pop(0)
         for param in params:
             if param.startswith('from-tag='):
diff --git a/sippy/SipVia.py b/sippy/SipVia.py
index 0ae9f10..21cc143 100644
--- a/sippy/SipVia.py
+++ b/sippy/SipVia.py
@@ -26,7 +26,7 @@
 
 from random import random
 from secrets import token_hex
-from sippy.SipGenericHF import SipGenericHF
+from sippy.SipGenericHF import SipGenericHF, split_unquoted
 from sippy.SipConf import SipConf
 from sippy.ESipHeaderCSV import ESipHeaderCSV
 
@@ -41,7 +41,9 @@ class SipVia(SipGenericHF):
 
     def __init__(self, body = None, cself = None):
         if body is not None and body.find(',') > -1:
-            raise ESipHeaderCSV(None, body.split(','))
+            csvs = split_unquoted(body, ',')
+            if len(csvs) > 1:
+                raise ESipHeaderCSV(None, [x.strip() for x in csvs])
         SipGenericHF.__init__(self, body)
         if body is not None:
             assert cself is None
@@ -61,7 +63,7 @@ class SipVia(SipGenericHF):
         self.params = {}
         parts, hostname = self.body.split(None, 1)
         self.sipver, self.transport = (p:=parts.rsplit('/', 1))[0].rstrip(), p[1].lstrip()
-        hcomps = [x.strip() for x in hostname.split(';')]
+        hcomps = [x.strip() for x in split_unquoted(hostname, ';')]
         for param in hcomps[1:]:
             sparam = param.split('=', 1)
             if len(sparam) == 1:
-- 
2.43.0


From 9a93471b38a82a221aeb477fc465d2f47bea8d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 10/87] fix: digest headers and Warning must honour quoted
 strings

---
 sippy/SipAuthorization.py   | 25 +++++++++++---------
 sippy/SipGenericHF.py       |  5 ++++
 sippy/SipWWWAuthenticate.py | 46 ++++++++++++++++++-------------------
 sippy/SipWarning.py         |  9 ++++++--
 4 files changed, 48 insertions(+), 37 deletions(-)

diff --git a/sippy/SipAuthorization.py b/sippy/SipAuthorization.py
index cbfe997..ef7637a 100644
--- a/sippy/SipAuthorization.py
+++ b/sippy/SipAuthorization.py
@@ -24,7 +24,7 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-from sippy.SipGenericHF import SipGenericHF
+from sippy.SipGenericHF import SipGenericHF, split_unquoted, unquote_string
 from sippy.Security.SipNonce import HashOracle, DGST_MD5, DGST_MD5SESS, \
   DGST_SHA256, DGST_SHA256SESS, DGST_SHA512, DGST_SHA512SESS
 
@@ -79,26 +79,29 @@ class SipAuthorization(SipGenericHF):
 
     def parse(self):
         self.otherparams = []
-        for name, value in [x.strip(', ').split('=', 1) for x in self.body.split(' ', 1)[1].split(',')]:
+        for part in split_unquoted(self.body.split(None, 1)[1], ','):
+            if len(part.strip()) == 0:
+                continue
+            name, value = [x.strip() for x in part.split('=', 1)]
             ci_name = name.lower()
             if ci_name == 'username':
-                self.username = value.strip('"')
+                self.username = unquote_string(value)
             elif ci_name == 'uri':
-                self.uri = value.strip('"')
+                self.uri = unquote_string(value)
             elif ci_name == 'realm':
-                self.realm = value.strip('"')
+                self.realm = unquote_string(value)
             elif ci_name == 'nonce':
-                self.nonce = value.strip('"')
+                self.nonce = unquote_string(value)
             elif ci_name == 'response':
-                self.response = value.strip('"')
+                self.response = unquote_string(value)
             elif ci_name == 'qop':
-                self.qop = value.strip('"')
+                self.qop = unquote_string(value)
             elif ci_name == 'cnonce':
-                self.cnonce = value.strip('"')
+                self.cnonce = unquote_string(value)
             elif ci_name == 'nc':
-                self.nc = value.strip('"')
+                self.nc = unquote_string(value)
             elif ci_name == 'algorithm':
-                self.algorithm = value.strip('"')
+                self.algorithm = unquote_string(value)
             else:
                 self.otherparams.append((name, value))
         self.parsed = True
diff --git a/sippy/SipGenericHF.py b/sippy/SipGenericHF.py
index 4987f4d..501ad72 100644
--- a/sippy/SipGenericHF.py
+++ b/sippy/SipGenericHF.py
@@ -52,6 +52,11 @@ def split_unquoted(s, sep, braces = False):
     parts.append(s[start:])
     return parts
 
+def unquote_string(s):
+    if len(s) > 1 and s[0] == '"' and s[-1] == '"':
+        return s[1:-1]
+    return s
+
 class SipGenericHF(object):
     hf_names = None	# Set this in each subclass!!
     body = None
diff --git a/sippy/SipWWWAuthenticate.py b/sippy/SipWWWAuthenticate.py
index d115dc5..b7f6b0a 100644
--- a/sippy/SipWWWAuthenticate.py
+++ b/sippy/SipWWWAuthenticate.py
@@ -24,7 +24,7 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-from sippy.SipGenericHF import SipGenericHF
+from sippy.SipGenericHF import SipGenericHF, split_unquoted, unquote_string
 from sippy.SipConf import SipConf
 from sippy.SipAuthorization import SipAuthorization, IsDigestAlgSupported, \
   NameList2AlgMask
@@ -61,28 +61,26 @@ class SipWWWAuthenticate(SipGenericHF):
         self.nonce = nonce
 
     def parse(self):
-        parts = self.body.split(' ', 1)[1].strip().split('"')
-        if len(parts) % 2 != 0 and len(parts[-1]) == 0:
-            parts.pop()
-        while len(parts) > 0:
-            parts1 = [x.strip().split('=', 1) for x in parts.pop(0).strip(' ,=').split(',')]
-            if len(parts) > 0:
-                parts1[-1].append(parts.pop(0))
-            for name, value in parts1:
-                if name == 'realm':
-                    self.realm = value
-                elif name == 'nonce':
-                    self.nonce = value
-                elif name == 'algorithm':
-                    if value == 'md5':
-                        value = 'MD5'
-                    self.algorithm = value
-                elif name == 'qop':
-                    self.qop = [x.strip() for x in value.split(',')]
-                elif name == 'opaque':
-                    self.opaque = value
-                else:
-                    self.otherparams.append((name, value))
+        for part in split_unquoted(self.body.split(None, 1)[1], ','):
+            if len(part.strip()) == 0:
+                continue
+            name, value = [x.strip() for x in part.split('=', 1)]
+            value = unquote_string(value)
+            ci_name = name.lower()
+            if ci_name == 'realm':
+                self.realm = value
+            elif ci_name == 'nonce':
+                self.nonce = value
+            elif ci_name == 'algorithm':
+                if value == 'md5':
+                    value = 'MD5'
+                self.algorithm = value
+            elif ci_name == 'qop':
+                self.qop = [x.strip() for x in value.split(',')]
+            elif ci_name == 'opaque':
+                self.opaque = value
+            else:
+                self.otherparams.append((name, value))
         self.parsed = True
 
     def __str__(self):
@@ -115,7 +113,7 @@ class SipWWWAuthenticate(SipGenericHF):
             return self.__class__(self.body)
         cself = self.__class__(realm = self.realm, nonce = self.nonce)
         cself.algorithm = self.algorithm
-        cself.qop = self.qop
+        cself.qop = None if self.qop is None else list(self.qop)
         cself.opaque = self.opaque
         if len(self.otherparams) > 0:
             cself.otherparams = self.otherparams[:]
diff --git a/sippy/SipWarning.py b/sippy/SipWarning.py
index 0a248b2..79132a0 100644
--- a/sippy/SipWarning.py
+++ b/sippy/SipWarning.py
@@ -24,7 +24,8 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-from sippy.SipGenericHF import SipGenericHF
+from sippy.SipGenericHF import SipGenericHF, split_unquoted, unquote_string
+from sippy.ESipHeaderCSV import ESipHeaderCSV
 
 import socket
 
@@ -35,6 +36,10 @@ class SipWarning(SipGenericHF):
     text = None
 
     def __init__(self, body = None, cself = None, code = None, text = None):
+        if body is not None:
+            csvs = split_unquoted(body, ',')
+            if len(csvs) > 1:
+                raise ESipHeaderCSV(None, [x.strip() for x in csvs])
         SipGenericHF.__init__(self, body)
         if body is not None:
             return
@@ -50,7 +55,7 @@ class SipWarning(SipGenericHF):
 
     def parse(self):
         code, self.agent, text = self.body.split(None, 2)
-        self.text = text.strip('"')
+        self.text = unquote_string(text.strip())
         self.code = int(code)
         self.parsed = True
 
-- 
2.43.0


From 14b6e6e075d3b9138f628dfd76f2aaf755618a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:06 +0000
Subject: [PATCH 11/87] fix: SipRequest.getCopy() must work

---
 sippy/SipMsg.py     | 3 ++-
 sippy/SipRequest.py | 8 ++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/sippy/SipMsg.py b/sippy/SipMsg.py
index e7cfdb8..d5ecc82 100644
--- a/sippy/SipMsg.py
+++ b/sippy/SipMsg.py
@@ -270,7 +270,8 @@ class SipMsg(object):
         return tuple([(call_id, ftag, cseq, method, via.getBranch()) for via in self.getHFBodys('via')])
 
     def getCopy(self):
-        cself = self.__class__()
+        cself = self.__class__.__new__(self.__class__)
+        SipMsg.__init__(cself)
         for header in self.headers:
             cself.appendHeader(header.getCopy())
         if self.body is not None:
diff --git a/sippy/SipRequest.py b/sippy/SipRequest.py
index 1fb1d50..bbf293d 100644
--- a/sippy/SipRequest.py
+++ b/sippy/SipRequest.py
@@ -106,6 +106,14 @@ class SipRequest(SipMsg):
     def setRURI(self, ruri):
         self.ruri = ruri
 
+    def getCopy(self):
+        cself = SipMsg.getCopy(self)
+        cself.method = self.method
+        cself.ruri = self.ruri.getCopy()
+        cself.sipver = self.sipver
+        cself.user_agent = self.user_agent
+        return cself
+
     def genResponse(self, scode, reason, body = None, server = None, ext_reason = None):
         # Should be done at the transaction level
         # to = self.getHF('to').getBody().getCopy()
-- 
2.43.0


From 96e47039d54c48321b557a607bf78bfef0991c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:06 +0000
Subject: [PATCH 12/87] fix: copy of an unparsed message body must keep its
 type

---
 sippy/MsgBody.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/MsgBody.py b/sippy/MsgBody.py
index 2f63b3a..90c9ca7 100644
--- a/sippy/MsgBody.py
+++ b/sippy/MsgBody.py
@@ -79,7 +79,7 @@ class MsgBody(object):
 
     def getCopy(self):
         if not self.parsed:
-            return MsgBody(self.content)
+            return MsgBody(self.content, self.mtype.getCopy())
         return MsgBody(cself = self)
 
 if 'MultipartMixBody' not in globals():
-- 
2.43.0


From 86e249e724d04028c2efd5d90cb7f442283da39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:59 +0000
Subject: [PATCH 13/87] fix: Content-Length counts bytes, not characters

---
 sippy/SipMsg.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sippy/SipMsg.py b/sippy/SipMsg.py
index d5ecc82..2d7ab98 100644
--- a/sippy/SipMsg.py
+++ b/sippy/SipMsg.py
@@ -107,7 +107,7 @@ class SipMsg(object):
             if self.__mbody == None:
                 mblen = 0
             else:
-                mblen = len(self.__mbody)
+                mblen = len(self.__mbody.encode('utf-8'))
             if blen == 0:
                 self.__mbody = None
                 mblen = 0
@@ -141,7 +141,7 @@ class SipMsg(object):
                     # happens with request
                     raise SipParseError('Truncated SIP body, %d bytes expected, %d received' % (blen, mblen))
             elif blen < mblen:
-                self.__mbody = self.__mbody[:blen]
+                self.__mbody = self.__mbody.encode('utf-8')[:blen].decode('utf-8', errors = 'replace')
                 mblen = blen
         if self.__mbody != None:
             if self.__content_type != None:
@@ -156,7 +156,7 @@ class SipMsg(object):
         if self.body is not None:
             mbody = str(self.body)
             s += 'Content-Type: %s\r\n' % self.body.mtype
-            s += 'Content-Length: %d\r\n\r\n' % len(mbody)
+            s += 'Content-Length: %d\r\n\r\n' % len(mbody.encode('utf-8'))
             s += mbody
         else:
             s += 'Content-Length: 0\r\n\r\n'
@@ -170,10 +170,10 @@ class SipMsg(object):
             mbody = self.body.localStr(local_addr)
             if compact:
                 s += 'c: %s\r\n' % self.body.mtype
-                s += 'l: %d\r\n\r\n' % len(mbody)
+                s += 'l: %d\r\n\r\n' % len(mbody.encode('utf-8'))
             else:
                 s += 'Content-Type: %s\r\n' % self.body.mtype
-                s += 'Content-Length: %d\r\n\r\n' % len(mbody)
+                s += 'Content-Length: %d\r\n\r\n' % len(mbody.encode('utf-8'))
             s += mbody
         else:
             if compact:
-- 
2.43.0


From 406221f968e4e2a3fc7f94b09e4ab32cc49d6caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 14/87] fix: only CR and LF end a header line

---
 sippy/SipMsg.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sippy/SipMsg.py b/sippy/SipMsg.py
index 2d7ab98..4989c03 100644
--- a/sippy/SipMsg.py
+++ b/sippy/SipMsg.py
@@ -24,6 +24,8 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+from re import compile as re_compile
+
 from sippy.SipHeader import SipHeader
 from sippy.SipContentLength import SipContentLength
 from sippy.SipContentType import SipContentType
@@ -33,6 +35,8 @@ from sippy.ESipHeaderIgnore import ESipHeaderIgnore
 from sippy.Exceptions.SipParseError import SipParseError
 from sippy.Network_server import Remote_address
 
+line_break = re_compile('\r\n|\r|\n')
+
 class SipMsg(object):
     headers = None
     body = None
@@ -57,7 +61,9 @@ class SipMsg(object):
                     self.__mbody = None
                 break
         # Split message into lines and put aside start line
-        lines = buf.splitlines()
+        lines = line_break.split(buf)
+        if len(lines) > 1 and len(lines[-1]) == 0:
+            lines.pop()
         self.setSL(lines[0])
         i = 2
         while i < len(lines):
-- 
2.43.0


From e122395413cb6e74e5b25f07dacf51c91bcb624c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 15/87] fix: malformed SDP must be reported as SdpParseError

---
 sippy/SdpBody.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/sippy/SdpBody.py b/sippy/SdpBody.py
index 7c3dd32..89a34e0 100644
--- a/sippy/SdpBody.py
+++ b/sippy/SdpBody.py
@@ -24,6 +24,8 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+from re import compile as re_compile
+
 from sippy.SdpMediaDescription import SdpMediaDescription, a_header
 from sippy.SdpGeneric import SdpGeneric
 from sippy.SdpOrigin import SdpOrigin
@@ -35,6 +37,8 @@ f_types = {'v':SdpGeneric, 'o':SdpOrigin, 's':SdpGeneric, 'i':SdpGeneric, \
   'b':SdpGeneric, 't':SdpGeneric, 'r':SdpGeneric, 'z':SdpGeneric, \
   'k':SdpGeneric}
 
+line_break = re_compile('\r\n|\r|\n')
+
 class SdpBody(object):
     v_header = None
     o_header = None
@@ -71,7 +75,15 @@ class SdpBody(object):
         self.sections = []
         if body is None:
             return
-        avpairs = [x.split('=', 1) for x in body.strip().splitlines() if len(x.strip()) > 0]
+        try:
+            self.parse(body)
+        except SdpParseError:
+            raise
+        except Exception as e:
+            raise SdpParseError('Malformed SDP: %s' % e) from e
+
+    def parse(self, body):
+        avpairs = [x.split('=', 1) for x in line_break.split(body.strip()) if len(x.strip()) > 0]
         current_snum = 0
         c_header = None
         for name, v in avpairs:
-- 
2.43.0


From 17720f6ba132555e7ce82b8bef3e1ebbd4714c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:33 +0000
Subject: [PATCH 16/87] fix: SDP fields that may be repeated must all be kept

---
 sippy/SdpBody.py             | 12 +++++++++---
 sippy/SdpMediaDescription.py |  2 ++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/sippy/SdpBody.py b/sippy/SdpBody.py
index 89a34e0..33b1fc1 100644
--- a/sippy/SdpBody.py
+++ b/sippy/SdpBody.py
@@ -57,6 +57,7 @@ class SdpBody(object):
     first_half = ('v', 'o', 's', 'i', 'u', 'e', 'p')
     second_half = ('b', 't', 'r', 'z', 'k')
     all_headers = ('v', 'o', 's', 'i', 'u', 'e', 'p', 'c', 'b', 't', 'r', 'z', 'k')
+    repeatable = ('e', 'p', 'b', 't', 'r')
     top_hdrs_req = ('v', 'o', 's', 't')
     sect_hdrs_req = ('c', 'm')
     sections = None
@@ -94,10 +95,8 @@ class SdpBody(object):
             if current_snum == 0:
                 if name == 'c':
                     c_header = v
-                elif name == 'a':
-                    self.a_headers.append(a_header(v))
                 else:
-                    setattr(self, name + '_header', f_types[name](v))
+                    self.addHeader(name, v)
             else:
                 self.sections[-1].addHeader(name, v)
         if c_header != None:
@@ -233,4 +232,11 @@ class SdpBody(object):
         if name == 'a':
             self.a_headers.append(a_header(header))
         else:
+            pheader = getattr(self, name + '_header', None)
+            if name in self.repeatable and pheader is not None:
+                if name == 't' and self.r_header is not None:
+                    # Repeat times belong to the time they follow
+                    pheader += '\r\nr=%s' % self.r_header
+                    self.r_header = None
+                header = '%s\r\n%s=%s' % (pheader, name, header)
             setattr(self, name + '_header', f_types[name](header))
diff --git a/sippy/SdpMediaDescription.py b/sippy/SdpMediaDescription.py
index d47b4e4..8a422c7 100644
--- a/sippy/SdpMediaDescription.py
+++ b/sippy/SdpMediaDescription.py
@@ -107,6 +107,8 @@ class SdpMediaDescription(object):
         if name == 'a':
             self.a_headers.append(a_header(header))
         else:
+            if name == 'b' and self.b_header is not None:
+                header = '%s\r\nb=%s' % (self.b_header, header)
             setattr(self, name + '_header', f_types[name](header))
 
     def insertHeader(self, indx, name, header):
-- 
2.43.0


From 2e893cf4dda292d36e7e0851b7e0a28804c06d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:33 +0000
Subject: [PATCH 17/87] fix: quote the error text in the Reason of a handling
 error

---
 sippy/Exceptions/SipHandlingError.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Exceptions/SipHandlingError.py b/sippy/Exceptions/SipHandlingError.py
index a4af016..2c19623 100644
--- a/sippy/Exceptions/SipHandlingError.py
+++ b/sippy/Exceptions/SipHandlingError.py
@@ -46,5 +46,5 @@ class SipHandlingError(Exception):
     def getReason(self):
         if self.arg is not None and len(self.arg) > 0:
             return SipReason(protocol='SIP', cause=self.code,
-                             reason=self.arg)
+                             reason=self.arg.replace('\\', '\\\\').replace('"', '\\"'))
         return None
-- 
2.43.0


From 60bf5e23945e595d931b5073f698fd7c5a6a582e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:33 +0000
Subject: [PATCH 18/87] fix: keep trailing whitespace of the last SDP line

---
 sippy/SdpBody.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SdpBody.py b/sippy/SdpBody.py
index 33b1fc1..658debb 100644
--- a/sippy/SdpBody.py
+++ b/sippy/SdpBody.py
@@ -84,7 +84,7 @@ class SdpBody(object):
             raise SdpParseError('Malformed SDP: %s' % e) from e
 
     def parse(self, body):
-        avpairs = [x.split('=', 1) for x in line_break.split(body.strip()) if len(x.strip()) > 0]
+        avpairs = [x.split('=', 1) for x in line_break.split(body.lstrip()) if len(x.strip()) > 0]
         current_snum = 0
         c_header = None
         for name, v in avpairs:
-- 
2.43.0


From 9219643acbdb68a0ec25322d3800f121fdfa5aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:45 +0000
Subject: [PATCH 19/87] fix: multipart/mixed bodies must keep part headers,
 boundaries and report errors

---
 sippy/MultipartMixBody.py | 94 ++++++++++++++++++++++++++++-----------
 1 file changed, 67 insertions(+), 27 deletions(-)

diff --git a/sippy/MultipartMixBody.py b/sippy/MultipartMixBody.py
index eb9b0a6..960a965 100644
--- a/sippy/MultipartMixBody.py
+++ b/sippy/MultipartMixBody.py
@@ -23,13 +23,24 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+from re import compile as re_compile, escape as re_escape
 from secrets import token_hex
 
 from sippy.SipHeader import SipHeader
 from sippy.SipContentType import SipContentType
+from sippy.SipGenericHF import unquote_string
+from sippy.ESipHeaderCSV import ESipHeaderCSV
+from sippy.Exceptions.SdpParseError import SdpParseError
+
+DEFAULT_PART_CTYPE = SipContentType('text/plain')
+DEFAULT_PART_CTYPE.parse()
+
+unquoted_boundary = re_compile("[0-9A-Za-z'+_.-]+$")
+folding = re_compile('\r\n[ \t]+')
 
 class MultipartMixBody():
     parts = None
+    part_headers = None
     boundary = None
     mtype = SipContentType('multipart/mixed')
     mtype.parse()
@@ -40,54 +51,83 @@ class MultipartMixBody():
         if body is None:
             self.setBoundary(token_hex(16))
             return
-        sep = f'--{ctype.params["boundary"]}'
-        bparts = body.split(sep)
-        assert len(bparts) > 2
-        assert len(bparts[0]) == 0
-        assert bparts[-1].strip() == '--'
-        parts = [p.lstrip() for p in bparts[1:-1]]
-        for sect in parts:
+        try:
+            self.parse(body, ctype)
+        except SdpParseError:
+            raise
+        except Exception as e:
+            raise SdpParseError(f'Malformed multipart body: {e}') from e
+
+    def parse(self, body, ctype):
+        boundary = ctype.params.get('boundary', None)
+        if not boundary:
+            raise SdpParseError('Multipart body without a boundary')
+        boundary = unquote_string(boundary)
+        delimiter = re_compile('(?:^|(?<=\n))--' + re_escape(boundary) + '(--)?[ \t]*(?:\r?\n|\\Z)')
+        sects = []
+        start = None
+        for m in delimiter.finditer(body):
+            if start is not None:
+                sects.append(body[start:m.start()])
+            start = m.end()
+            if m.group(1) is not None:
+                break
+        else:
+            raise SdpParseError('Multipart body is not terminated')
+        if len(sects) == 0:
+            raise SdpParseError('Multipart body has no parts')
+        for sect in sects:
             headers = []
-            ct = None
-            headersect, sect = sect.split('\r\n\r\n', 1)
+            ct = DEFAULT_PART_CTYPE.getCopy()
+            if sect.startswith('\r\n'):
+                headersect, sect = '', sect[2:]
+            else:
+                headersect, sect = sect.split('\r\n\r\n', 1)
             # parse sub headers
-            for hl in headersect.split('\r\n'):
-                h = SipHeader(hl)
-                if h.name == "content-type":
-                    ct = h.getBody()
-                else:
-                    headers.append(h)
+            for hl in [x for x in folding.sub(' ', headersect).split('\r\n') if len(x) > 0]:
+                try:
+                    hs = [SipHeader(hl)]
+                except ESipHeaderCSV as einst:
+                    hs = [SipHeader(name = einst.name, bodys = x) for x in einst.bodys]
+                for h in hs:
+                    if h.name == "content-type":
+                        ct = h.getBody()
+                    else:
+                        headers.append(h)
             # add part
             sect = MsgBody(sect, ct)
             self.parts.append(sect)
             self.part_headers.append(headers)
-        self.setBoundary(ctype.params["boundary"])
+        self.setBoundary(boundary)
 
     def setBoundary(self, bnd):
         self.boundary = bnd
         mtype = self.mtype.getCopy()
-        mtype.params["boundary"] = bnd
+        mtype.params["boundary"] = bnd if unquoted_boundary.match(bnd) else f'"{bnd}"'
         self.mtype = mtype
 
     def __str__(self):
-        bnd = f'--{self.boundary}\r\n'
-        parts = [f'{bnd}Content-Type: {p.mtype}\r\n\r\n{p}' for p in self.parts]
-        s = ''.join(parts)
-        s += f'{bnd[:-2]}--\r\n'
-        return s
+        return self.localStr()
 
     def localStr(self, local_addr = None):
-        bnd = f'--{self.boundary}\r\n'
-        parts = [f'{bnd}Content-Type: {p.mtype}\r\n\r\n{p.localStr(local_addr)}'
-                 for p in self.parts]
-        s = ''.join(parts)
-        s += f'{bnd[:-2]}--\r\n'
+        s = ''
+        for i, p in enumerate(self.parts):
+            s += f'--{self.boundary}\r\nContent-Type: {p.mtype}\r\n'
+            if i < len(self.part_headers):
+                for h in self.part_headers[i]:
+                    s += h.localStr(local_addr) + '\r\n'
+            s += '\r\n' + p.localStr(local_addr)
+            if not s.endswith('\r\n'):
+                s += '\r\n'
+        s += f'--{self.boundary}--\r\n'
         return s
 
     def getCopy(self):
         cself = MultipartMixBody()
         cself.parts = [p.getCopy() for p in self.parts]
+        cself.part_headers = [[h.getCopy() for h in hs] for hs in self.part_headers]
         cself.boundary = self.boundary
+        cself.mtype = self.mtype.getCopy()
         return cself
 
     def getContentType(self):
-- 
2.43.0


From 4392c97c5c453f7b2f88ec8f8be397fb53154004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 20/87] fix: incomplete digest credentials must be refused

---
 sippy/SipAuthorization.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/sippy/SipAuthorization.py b/sippy/SipAuthorization.py
index ef7637a..49ba600 100644
--- a/sippy/SipAuthorization.py
+++ b/sippy/SipAuthorization.py
@@ -130,16 +130,27 @@ class SipAuthorization(SipGenericHF):
             return self.__class__(self.body)
         return self.__class__(cself = self)
 
+    def isComplete(self):
+        if None in (self.username, self.realm, self.nonce, self.uri, self.response):
+            return False
+        if not IsDigestAlgSupported(self.algorithm):
+            return False
+        if self.qop != None or (self.algorithm != None and self.algorithm.endswith('-sess')):
+            return None not in (self.nc, self.cnonce)
+        return True
+
     def verify(self, password, method, body = None):
         if not self.parsed:
             self.parse()
+        if not self.isComplete():
+            return False
         HA1 = DigestCalcHA1(self.algorithm, self.username, self.realm, password, self.nonce, self.cnonce)
         return self.verifyHA1(HA1, method, body)
 
     def verifyHA1(self, HA1, method, body):
         if not self.parsed:
             self.parse()
-        if self.algorithm not in _HASH_FUNC:
+        if not self.isComplete():
             return False
         if self.qop != None and self.qop not in ('auth', 'auth-int'):
             return False
-- 
2.43.0


From 27d7f499c403148e680191b11532adbaeaefa8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 21/87] fix: a nonce with foreign characters added must be
 refused

---
 sippy/Security/SipNonce.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sippy/Security/SipNonce.py b/sippy/Security/SipNonce.py
index 75cdffe..0c51db8 100644
--- a/sippy/Security/SipNonce.py
+++ b/sippy/Security/SipNonce.py
@@ -62,7 +62,10 @@ class AESCipher(object):
         return b64encode(eraw).rstrip(b'=')
 
     def decrypt(self, enc):
-        enc = b64decode(enc + (b'=' * (-len(enc) % 4)))
+        denc = b64decode(enc + (b'=' * (-len(enc) % 4)))
+        if b64encode(denc).rstrip(b'=') != enc:
+            raise ValueError
+        enc = denc
         data = enc[:-MAC_SIZE]
         tag = enc[-MAC_SIZE:]
         ctag = hmac_new(self.mac_key, data, 'sha256').digest()[:MAC_SIZE]
-- 
2.43.0


From 633154375afd974e9424b55c432dbf0faf9692e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 22/87] fix: credit time granted by the authorisation server
 must be applied to the route

---
 sippy/B2B/Route.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/B2B/Route.py b/sippy/B2B/Route.py
index ab76deb..d77ccfb 100644
--- a/sippy/B2B/Route.py
+++ b/sippy/B2B/Route.py
@@ -214,7 +214,7 @@ class B2BRoute(object):
         if not self.cli_set:
             self._cli = default_cli
         if not self.crt_set:
-            self.crt_set = default_credit_time
+            self.credit_time = default_credit_time
         if 'gt' in self.params:
             timeout, skip = self.params['gt'].split(',', 1)
             self.params['group_timeout'] = (int(timeout), rnum + int(skip))
-- 
2.43.0


From 338396c8508aba64e6c404483cdb1b934222e921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 23/87] fix: HDR2Xattrs must find its header whatever the
 letter case

---
 sippy/B2B/Transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/B2B/Transforms.py b/sippy/B2B/Transforms.py
index 059e8f3..8054529 100644
--- a/sippy/B2B/Transforms.py
+++ b/sippy/B2B/Transforms.py
@@ -33,7 +33,7 @@ class HDR2Xattrs():
     # Author: @twmobius
     hdr_name:str
     def __init__(self, hdr_name:str):
-        self.hdr_name = hdr_name
+        self.hdr_name = hdr_name.lower()
 
     def __call__(self, cc:'CallController', req:SipRequest):
         hfs = req.getHFs(self.hdr_name)
-- 
2.43.0


From ab5f58b32687e7ac5f979a80dd7db16c858d4512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:17 +0000
Subject: [PATCH 24/87] fix: outbound proxy of a route may be an IPv6 address

---
 sippy/B2B/Route.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/B2B/Route.py b/sippy/B2B/Route.py
index d77ccfb..7cc6a1c 100644
--- a/sippy/B2B/Route.py
+++ b/sippy/B2B/Route.py
@@ -194,8 +194,8 @@ class B2BRoute(object):
             elif a == 'rtpp':
                 self.params['rtpp'] = (int(v) != 0)
             elif a == 'op':
-                host_port = v.split(':', 1)
-                if len(host_port) == 1:
+                host_port = v.rsplit(':', 1)
+                if len(host_port) == 1 or v.endswith(']'):
                     self.params['outbound_proxy'] = (v, 5060)
                 else:
                     self.params['outbound_proxy'] = (host_port[0], int(host_port[1]))
-- 
2.43.0


From ba2b942b7a49c522d0884673764d5e18e76eea2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:08 +0000
Subject: [PATCH 25/87] fix: reading a configuration file must work and be all
 or nothing

---
 sippy/MyConfigParser.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/sippy/MyConfigParser.py b/sippy/MyConfigParser.py
index df9dc61..886befe 100644
--- a/sippy/MyConfigParser.py
+++ b/sippy/MyConfigParser.py
@@ -161,10 +161,17 @@ class MyConfigParser(RawConfigParser):
         return tuple([x + '=' for x in SUPPORTED_OPTIONS.keys()])
 
     def read(self, fname):
-        RawConfigParser.readfp(self, open(fname))
-        for key in tuple(self.options(self._default_section)):
-            self.check_and_set(key, RawConfigParser.get(self, \
-              self._default_section, key), False)
+        # Read and validate everything first, so that a file with an error
+        # in it does not leave us with half of its values applied.
+        parser = self.__class__(self._default_section)
+        with open(fname) as fp:
+            RawConfigParser.read_file(parser, fp)
+        values = tuple((key, RawConfigParser.get(parser, self._default_section, key)) \
+          for key in parser.options(self._default_section))
+        for key, value in values:
+            parser.check_and_set(key, value, False)
+        for key, value in values:
+            self.check_and_set(key, value, False)
 
     def check_and_set(self, key, value, compat = True):
         value = value.strip()
-- 
2.43.0


From d2d42544201855476cc535fad26879f3c06d4330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:15 +0000
Subject: [PATCH 26/87] fix: header names given with -h must be matched
 whatever their letter case

---
 sippy/MyConfigParser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/MyConfigParser.py b/sippy/MyConfigParser.py
index 886befe..3084060 100644
--- a/sippy/MyConfigParser.py
+++ b/sippy/MyConfigParser.py
@@ -190,9 +190,9 @@ class MyConfigParser(RawConfigParser):
             elif key == 'pass_header':
                 # XXX compatibility option
                 if self.has_key('_pass_headers'):
-                    self['_pass_headers'].append(value)
+                    self['_pass_headers'].append(value.lower())
                 else:
-                    self['_pass_headers'] = [value,]
+                    self['_pass_headers'] = [value.lower(),]
                 if self.has_key('pass_headers'):
                     self['pass_headers'] += ',' + value
                 else:
-- 
2.43.0


From 0f01b85d2dcde9a20402ed11fce666b9352ee575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:22 +0000
Subject: [PATCH 27/87] fix: white space is allowed between the allowed payload
 types

---
 sippy/MyConfigParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/MyConfigParser.py b/sippy/MyConfigParser.py
index 3084060..2c4fb65 100644
--- a/sippy/MyConfigParser.py
+++ b/sippy/MyConfigParser.py
@@ -213,7 +213,7 @@ class MyConfigParser(RawConfigParser):
                 raise ValueError('max_credit_time should be more than zero')
         elif key == 'allowed_pts':
             self['_allowed_pts'] = [int(x) if not (x.startswith('[') and x.endswith(']')) \
-                                           else x[1:-1] for x in value.split(',')]
+                                           else x[1:-1] for x in [y.strip() for y in value.split(',')]]
         elif key in ('accept_ips', 'rtp_proxy_clients'):
             self['_' + key] = [x.strip() for x in value.split(',')]
         elif key == 'pass_headers':
-- 
2.43.0


From d18b3bb414e5bc223ec01b4614ff3cf92a8732df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:30 +0000
Subject: [PATCH 28/87] fix: HDR2Xattrs keeps the header name as configured

---
 sippy/B2B/Transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/B2B/Transforms.py b/sippy/B2B/Transforms.py
index 8054529..6527b14 100644
--- a/sippy/B2B/Transforms.py
+++ b/sippy/B2B/Transforms.py
@@ -33,10 +33,10 @@ class HDR2Xattrs():
     # Author: @twmobius
     hdr_name:str
     def __init__(self, hdr_name:str):
-        self.hdr_name = hdr_name.lower()
+        self.hdr_name = hdr_name
 
     def __call__(self, cc:'CallController', req:SipRequest):
-        hfs = req.getHFs(self.hdr_name)
+        hfs = req.getHFs(self.hdr_name.lower())
 
         if len(hfs) == 0:
             return
-- 
2.43.0


From 7de74cf2313510cfb6084ddb9bf314feca4c84af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:14 +0000
Subject: [PATCH 29/87] fix: header fields must be found whatever the letter
 case of the name asked for

---
 sippy/B2B/Transforms.py | 2 +-
 sippy/SipMsg.py         | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/sippy/B2B/Transforms.py b/sippy/B2B/Transforms.py
index 6527b14..059e8f3 100644
--- a/sippy/B2B/Transforms.py
+++ b/sippy/B2B/Transforms.py
@@ -36,7 +36,7 @@ class HDR2Xattrs():
         self.hdr_name = hdr_name
 
     def __call__(self, cc:'CallController', req:SipRequest):
-        hfs = req.getHFs(self.hdr_name.lower())
+        hfs = req.getHFs(self.hdr_name)
 
         if len(hfs) == 0:
             return
diff --git a/sippy/SipMsg.py b/sippy/SipMsg.py
index 4989c03..20c5137 100644
--- a/sippy/SipMsg.py
+++ b/sippy/SipMsg.py
@@ -195,6 +195,7 @@ class SipMsg(object):
         return self.startline
 
     def getHFs(self, name):
+        name = name.lower()
         return [x for x in self.headers if x.name == name]
 
     def countHFs(self, name):
@@ -216,6 +217,7 @@ class SipMsg(object):
         return [x.getBCopy() for x in self.headers if x.name == name]
 
     def getHFBCopy(self, name, idx = 0):
+        name = name.lower()
         return [x for x in self.headers if x.name == name][idx].getBCopy()
 
     def replaceHeader(self, oheader, nheader):
-- 
2.43.0


From fe37a7183083fa3d0cce7f409a762a0289d6a838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:13 +0000
Subject: [PATCH 30/87] fix: relay command G without arguments must be accepted

---
 sippy/Rtp_proxy/cmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Rtp_proxy/cmd.py b/sippy/Rtp_proxy/cmd.py
index f7b9375..b3b1af6 100644
--- a/sippy/Rtp_proxy/cmd.py
+++ b/sippy/Rtp_proxy/cmd.py
@@ -146,7 +146,7 @@ class Rtp_proxy_cmd(object):
                 self.args = args
                 self.command_opts = command_opts[1:]
         elif self.type in ('G',):
-            if not cmd[1].isspace():
+            if len(cmd) > 1 and not cmd[1].isspace():
                 cparts = cmd[1:].split(None, 1)
                 if len(cparts) > 1:
                     self.command_opts, self.args = cparts
-- 
2.43.0


From 89301ddf252e201c508a41a252c98a2befc4c85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:42 +0000
Subject: [PATCH 31/87] fix: relay command options must survive parsing and
 writing

---
 sippy/Rtp_proxy/cmd.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sippy/Rtp_proxy/cmd.py b/sippy/Rtp_proxy/cmd.py
index b3b1af6..f859093 100644
--- a/sippy/Rtp_proxy/cmd.py
+++ b/sippy/Rtp_proxy/cmd.py
@@ -74,7 +74,7 @@ class UpdateLookupOpts(object):
                 if len(val) > 0:
                     self.codecs = [int(x) for x in val.split(',')]
             else:
-                val, s = extract_to_next_token(s, ('c', 'R'), True)
+                val, s = extract_to_next_token(s, ('c', 'R', 'L'), True)
                 if len(val) > 0:
                     self.otherparams += val
 
@@ -90,7 +90,11 @@ class UpdateLookupOpts(object):
                 s += '%s,' % (codec,)
             s = s[:-1]
         if self.otherparams != None and len(self.otherparams) > 0:
-            s += self.otherparams
+            if self.otherparams[0] in '0123456789.,':
+                # Would be taken for a part of the preceding option
+                s = self.otherparams + s
+            else:
+                s += self.otherparams
         s = '%s %s' % (s, call_id)
         if self.remote_ip != None:
             s = '%s %s' % (s, self.remote_ip)
-- 
2.43.0


From 99a3624933d5c3bc0dfbb24651c75a1273ea5258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:42 +0000
Subject: [PATCH 32/87] fix: a wall-clock time in the past must not convert to
 the current moment

---
 sippy/Time/MonoTime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Time/MonoTime.py b/sippy/Time/MonoTime.py
index 812005c..ab37024 100644
--- a/sippy/Time/MonoTime.py
+++ b/sippy/Time/MonoTime.py
@@ -85,7 +85,7 @@ class MonoTime(object):
             monot_now = clock_getdtime(CLOCK_MONOTONIC)
             if monot_now > self.globals.monot_max:
                 self.globals.monot_max = monot_now
-            self.monot = self.globals.monot_max
+            self.monot = min(self.monot, self.globals.monot_max)
 
     def getdiff(self):
         return (self.realt - self.monot)
-- 
2.43.0


From 148c2175c5d1fcfe6120b252f390156de1b67725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:27 +0000
Subject: [PATCH 33/87] fix: a call refused with 483 must not leave a call
 record behind

---
 sippy/b2bua.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index e1380d8..0c69dea 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -286,6 +286,11 @@ class CallController(object):
         self.placeOriginate(self.routes.pop(0))
 
     def placeOriginate(self, oroute):
+        if self.eTry.max_forwards != None and self.eTry.max_forwards <= 1:
+            # Nothing may be created for an attempt that is not going to happen
+            self.uaA.recvEvent(CCEventFail((483, 'Too Many Hops')))
+            self.state = CCStateDead
+            return
         cId, cli, cld, body, auth, caller_name = self.eTry.getData()
         cld = oroute.cld
         self.huntstop_scodes = oroute.params.get('huntstop_scodes', ())
@@ -351,10 +356,6 @@ class CallController(object):
           oroute.params.get('caller_name', self.caller_name)))
         if self.eTry.max_forwards != None:
             event.max_forwards = self.eTry.max_forwards - 1
-            if event.max_forwards <= 0:
-                self.uaA.recvEvent(CCEventFail((483, 'Too Many Hops')))
-                self.state = CCStateDead
-                return
         event.reason_rfc3326 = self.eTry.reason_rfc3326
         po_proc = oroute.params.get('po_proc', None)
         if po_proc is not None:
-- 
2.43.0


From 1860611279196d1a4d847d4a549cf94780f78832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:48 +0000
Subject: [PATCH 34/87] fix: answer to a delayed offer must go out in ACK

---
 sippy/SipTransactionManager.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index 9b1622a..e448357 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -80,6 +80,7 @@ class SipTransaction(object):
     checksum = None
     cb_ifver = None
     uack = False
+    late_offer = False
     compact = False
     req_out_cb = None
     res_out_cb = None
@@ -430,6 +431,7 @@ class SipTransactionManager(object):
             except IndexError:
                 t.expires = 300
             t.needack = True
+            t.late_offer = msg.getBody() is None
             t.ack = msg.genACK()
             t.cancel = msg.genCANCEL()
         else:
@@ -542,16 +544,25 @@ class SipTransactionManager(object):
                         t.ack.getHFBody('via').genBranch()
                     if rAddr == None:
                         rAddr = (t.address, t.userv.transport)
-                    if not t.uack:
-                        self.transmitMsg(t.userv, t.ack, rAddr[0], checksum, t.compact)
-                        if t.req_out_cb != None:
-                            t.req_out_cb(t.ack)
-                    else:
+                    t.ack_rAddr = rAddr
+                    t.ack_checksum = checksum
+                    if t.uack or (t.late_offer and fcode < 300):
+                        # The response may carry an offer, in which case it's
+                        # up to the UA to send ACK once it has an answer
                         t.state = UACK
-                        t.ack_rAddr = rAddr
-                        t.ack_checksum = checksum
                         self.l1rcache[checksum] = SipTMRetransmitO()
                         t.teG = Timeout(self.timerG, 64, 1, t)
+                        if t.resp_cb != None:
+                            if t.cb_ifver == 1:
+                                t.resp_cb(msg)
+                            else:
+                                t.resp_cb(msg, t)
+                        if t.ack != None and not t.uack:
+                            self.sendACK(t)
+                        return
+                    self.transmitMsg(t.userv, t.ack, rAddr[0], checksum, t.compact)
+                    if t.req_out_cb != None:
+                        t.req_out_cb(t.ack)
                 else:
                     self.l1rcache[checksum] = SipTMRetransmitO()
                 if t.resp_cb != None:
@@ -559,8 +570,6 @@ class SipTransactionManager(object):
                         t.resp_cb(msg)
                     else:
                         t.resp_cb(msg, t)
-                if t.state == UACK:
-                    return
                 del self.tclient[t.tid]
                 t.cleanup()
 
-- 
2.43.0


From 60b530aaccc8e4421eb3329b3cc192cfdcf070a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:14 +0000
Subject: [PATCH 35/87] fix: re-INVITE failing, being redirected or answered
 without SDP must leave the call intact

---
 sippy/UA.py               |  2 ++
 sippy/UaStateConnected.py | 12 ++++++++----
 sippy/UacStateUpdating.py |  3 ++-
 sippy/UasStateUpdating.py | 18 +++++++++++++++---
 4 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index 25fc904..5e02e25 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -72,6 +72,8 @@ class UA(object):
     uasResp = None
     lSDP = None
     rSDP = None
+    prev_lSDP = None
+    prev_rSDP = None
     kaInterval = 0
     branch = None
     reqs = None
diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 30697fb..679b591 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -66,15 +66,17 @@ class UaStateConnected(UaStateGeneric):
         self.ua.uasResp = req.genResponse(100, 'Trying', server = self.ua.local_ua)
         self.ua.global_config['_sip_tm'].sendResponse(self.ua.uasResp)
         body = req.getBody()
-        if body is None:
+        self.ua.prev_rSDP = self.ua.rSDP
+        if body is None and self.ua.rSDP is not None:
             # Some brain-damaged stacks use body-less re-INVITE as a means
             # for putting session on hold. Quick and dirty hack to make this
             # scenario working.
             body = self.ua.rSDP.getCopy()
             body.parse()
             for sect in body.content.sections:
-                sect.c_header.addr = '0.0.0.0'
-        elif str(self.ua.rSDP) == str(body):
+                if sect.c_header is not None:
+                    sect.c_header.addr = '0.0.0.0'
+        elif body is not None and str(self.ua.rSDP) == str(body):
             self.ua.sendUasResponse(200, 'OK', self.ua.lSDP, (self.ua.lContact,))
             return None
         event = CCEventUpdate(body, rtime = req.rtime, origin = self.ua.origin)
@@ -184,7 +186,8 @@ class UaStateConnected(UaStateGeneric):
     def _recvEventUpdate(self, event, eh):
         body = event.getData()
         fake_laddr = (('127.0.0.1', None), None)
-        if self.ua.lSDP.localStr(fake_laddr) == body.localStr(fake_laddr):
+        if (self.ua.lSDP.localStr(fake_laddr) if self.ua.lSDP is not None else None) == \
+          (body.localStr(fake_laddr) if body is not None else None):
             if self.ua.rSDP is not None:
                 self.ua.equeue.append(CCEventConnect((200, 'OK', self.ua.rSDP.getCopy()), \
                     rtime = event.rtime, origin = event.origin))
@@ -213,6 +216,7 @@ class UaStateConnected(UaStateGeneric):
             max_forwards_hf = None
         req = self.ua.genRequest('INVITE', body, extra_headers = eh, \
           max_forwards = max_forwards_hf)
+        self.ua.prev_lSDP = self.ua.lSDP
         self.ua.lSDP = body
         self.ua.newUacTransaction(req, req_extra_headers = eh)
         return (self.ua.UacStateUpdating,)
diff --git a/sippy/UacStateUpdating.py b/sippy/UacStateUpdating.py
index a3009c2..e42228e 100644
--- a/sippy/UacStateUpdating.py
+++ b/sippy/UacStateUpdating.py
@@ -88,6 +88,8 @@ class UacStateUpdating(UaStateGeneric):
                 self.ua.rSDP = None
             self.ua.equeue.append(event)
             return (self.ua.UaStateConnected,)
+        # The session stays as it was before the update
+        self.ua.lSDP = self.ua.prev_lSDP
         try:
             reason_rfc3326 = resp.getHFBody('reason')
         except:
@@ -100,7 +102,6 @@ class UacStateUpdating(UaStateGeneric):
             scode = (code, reason, body, redirects)
             event = CCEventRedirect(scode, rtime = resp.rtime, origin = self.ua.origin)
         else:
-            self.ua.lSDP = None
             event = CCEventFail(scode, rtime = resp.rtime, origin = self.ua.origin)
         event.reason_rfc3326 = reason_rfc3326
 
diff --git a/sippy/UasStateUpdating.py b/sippy/UasStateUpdating.py
index c2af2bc..4aa5e51 100644
--- a/sippy/UasStateUpdating.py
+++ b/sippy/UasStateUpdating.py
@@ -67,8 +67,20 @@ class UasStateUpdating(UasStateGeneric):
           extra_headers = eh)
         return (self.ua.UaStateConnected,)
 
+    def _recvEventRing(self, event, eh):
+        lSDP = self.ua.lSDP
+        super()._recvEventRing(event, eh)
+        self.ua.lSDP = lSDP
+        return None
+
+    def _recvEventRedirect(self, event, eh):
+        self.ua.rSDP = self.ua.prev_rSDP
+        super()._recvEventRedirect(event, eh)
+        return (self.ua.UaStateConnected,)
+
     def _recvEventFail(self, event, eh):
-        self.ua.rSDP = None
+        # The session stays as it was before the update
+        self.ua.rSDP = self.ua.prev_rSDP
         self._sendFailResponse(event, eh)
         return (self.ua.UaStateConnected,)
 
@@ -81,9 +93,9 @@ class UasStateUpdating(UasStateGeneric):
         return (self.ua.UaStateDisconnected, self.ua.disc_cbs, event.rtime, event.origin)
 
     recv_event_handlers = {
-      CCEventRing: UasStateGeneric._recvEventRing,
+      CCEventRing: _recvEventRing,
       CCEventConnect: _recvEventConnect,
-      CCEventRedirect: UasStateGeneric._recvEventRedirect,
+      CCEventRedirect: _recvEventRedirect,
       CCEventFail: _recvEventFail,
       CCEventDisconnect: _recvEventDisconnect,
     }
-- 
2.43.0


From cbdc05cfc8e0d5fc75760fb3d6ae86ca1d2bcbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:29 +0000
Subject: [PATCH 36/87] fix: challenges of the callee must be passed to the
 caller

---
 sippy/UacStateRinging.py | 5 +++++
 sippy/UacStateTrying.py  | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/sippy/UacStateRinging.py b/sippy/UacStateRinging.py
index 8534ef7..51ba303 100644
--- a/sippy/UacStateRinging.py
+++ b/sippy/UacStateRinging.py
@@ -107,6 +107,11 @@ class UacStateRinging(UacStateTrying):
             event = CCEventRedirect(scode, rtime = resp.rtime, origin = self.ua.origin)
         else:
             event = CCEventFail(scode, rtime = resp.rtime, origin = self.ua.origin)
+            if self.ua.pass_auth:
+                if code == 401 and resp.countHFs('www-authenticate') != 0:
+                    event.challenges = [x.getCopy() for x in resp.getHFs('www-authenticate')]
+                elif code == 407 and resp.countHFs('proxy-authenticate') != 0:
+                    event.challenges = [x.getCopy() for x in resp.getHFs('proxy-authenticate')]
         try:
             event.reason_rfc3326 = resp.getHFBody('reason')
         except:
diff --git a/sippy/UacStateTrying.py b/sippy/UacStateTrying.py
index 538b2b5..477839e 100644
--- a/sippy/UacStateTrying.py
+++ b/sippy/UacStateTrying.py
@@ -128,7 +128,7 @@ class UacStateTrying(UaStateGeneric):
                 if code == 401 and resp.countHFs('www-authenticate') != 0:
                     event.challenges = [x.getCopy() for x in resp.getHFs('www-authenticate')]
                 elif code == 407 and resp.countHFs('proxy-authenticate') != 0:
-                    event.challenges = [x.getCopy() for x in resp.getHF('proxy-authenticate')]
+                    event.challenges = [x.getCopy() for x in resp.getHFs('proxy-authenticate')]
         try:
             event.reason_rfc3326 = resp.getHFBody('reason')
         except:
-- 
2.43.0


From fb3c043e3af2f7bd286b3d8061be05aa6f539fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:04 +0000
Subject: [PATCH 37/87] fix: keep-alive timers must not outlive the connected
 state

---
 sippy/UaStateConnected.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 679b591..4dd9732 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -42,6 +42,7 @@ class UaStateConnected(UaStateGeneric):
     triedauth = None
     keepalives = None
     ka_tr = None
+    ka_timer = None
     connected = True
 
     def __init__(self, ua):
@@ -50,7 +51,7 @@ class UaStateConnected(UaStateGeneric):
         super().__init__(ua)
         self.ua.branch = None
         if self.ua.kaInterval > 0:
-            Timeout(self.keepAlive, self.ua.kaInterval)
+            self.ka_timer = Timeout(self.keepAlive, self.ua.kaInterval)
 
     def _recvRequestRefer(self, req):
         if req.countHFs('refer-to') == 0:
@@ -258,6 +259,7 @@ class UaStateConnected(UaStateGeneric):
     }
 
     def keepAlive(self):
+        self.ka_timer = None
         if self.ua.state != self:
             return
         #self.ua.lSDP.parse()
@@ -266,6 +268,10 @@ class UaStateConnected(UaStateGeneric):
         self.triedauth = False
         self.ka_tr = self.ua.newTransaction(req, resp_cb = self.keepAliveResp)
 
+    def keepAliveExpires(self):
+        self.ka_timer = None
+        self.ua.disconnect()
+
     def keepAliveResp(self, resp):
         if self.ua.state != self:
             return
@@ -292,17 +298,20 @@ class UaStateConnected(UaStateGeneric):
             _h, _p = self.ua.rAddr[0]
             if self.keepalives == 1:
                 print('%s: Remote UAS at %s:%d does not support re-INVITES, disabling keep alives' % (self.ua.cId, _h, _p))
-                Timeout(self.ua.disconnect, 600)
+                self.ka_timer = Timeout(self.keepAliveExpires, 600)
                 return
             print('%s: Received %d response to keep alive from %s:%d, disconnecting the call' % (self.ua.cId, code, _h, _p))
             self.ua.disconnect()
             return
-        Timeout(self.keepAlive, self.ua.kaInterval)
+        self.ka_timer = Timeout(self.keepAlive, self.ua.kaInterval)
 
     def onStateChange(self, newstate):
         if self.ka_tr != None:
             self.ua.global_config['_sip_tm'].cancelTransaction(self.ka_tr)
             self.ka_tr = None
+        if self.ka_timer != None:
+            self.ka_timer.cancel()
+            self.ka_timer = None
         if self.ua.pending_tr != None:
             self.ua.global_config['_sip_tm'].sendACK(self.ua.pending_tr)
             self.ua.pending_tr = None
-- 
2.43.0


From b13b3aeb957b2245bd82a808429b8ca78d23eeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:30 +0000
Subject: [PATCH 38/87] fix: re-INVITE before ACK with the answer must get 491

---
 sippy/UaStateConnected.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 4dd9732..6aba887 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -64,6 +64,11 @@ class UaStateConnected(UaStateGeneric):
         return None
 
     def _recvRequestInvite(self, req):
+        if self.ua.connect_ts is None:
+            # The offer sent in (or received with) 200 OK has not been
+            # answered in ACK yet
+            req.sendResponse(491, 'Request Pending')
+            return None
         self.ua.uasResp = req.genResponse(100, 'Trying', server = self.ua.local_ua)
         self.ua.global_config['_sip_tm'].sendResponse(self.ua.uasResp)
         body = req.getBody()
-- 
2.43.0


From 5f05ef6292131a36a96f40bd7702c59b9d8d21d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:08 +0000
Subject: [PATCH 39/87] fix: group timeout must work

---
 sippy/b2bua.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 0c69dea..4842def 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -404,17 +404,17 @@ class CallController(object):
             self.global_config['_cmap'].ccmap.remove(self)
 
     def group_expires(self, skipto):
-        if self.state != CCStateARComplete or len(self.routes) == 0 or self.routes[0][0] > skipto or \
+        if self.state != CCStateARComplete or len(self.routes) == 0 or self.routes[0].rnum > skipto or \
           (not isinstance(self.uaA.state, self.uaA.UasStateTrying) and not isinstance(self.uaA.state, self.uaA.UasStateRinging)):
             return
         # When the last group in the list has timeouted don't disconnect
         # the current attempt forcefully. Instead, make sure that if the
         # current originate call leg fails no more routes will be
         # processed.
-        if skipto == self.routes[-1][0] + 1:
+        if skipto == self.routes[-1].rnum + 1:
             self.routes = []
             return
-        while self.routes[0][0] != skipto:
+        while len(self.routes) > 0 and self.routes[0].rnum < skipto:
             self.routes.pop(0)
         self.uaO.disconnect()
 
-- 
2.43.0


From bed7d0da6d1ce51c8f096cd0812e15bf67101c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:17 +0000
Subject: [PATCH 40/87] fix: REFER during an update must end the referring
 party's leg too

---
 sippy/UasStateUpdating.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sippy/UasStateUpdating.py b/sippy/UasStateUpdating.py
index 4aa5e51..f6da07f 100644
--- a/sippy/UasStateUpdating.py
+++ b/sippy/UasStateUpdating.py
@@ -49,6 +49,8 @@ class UasStateUpdating(UasStateGeneric):
         self.ua.sendUasResponse(487, 'Request Terminated')
         req.sendResponse(202, 'Accepted')
         also = req.getHFBody('refer-to').getCopy()
+        bye = self.ua.genRequest('BYE')
+        self.ua.newTransaction(bye)
         self.ua.cancelCreditTimer()
         return self._disconnectFromRequest(req, also, copy_reason = False)
 
-- 
2.43.0


From b1282a8fb8367676482c07c335b9660ed8cc78e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:09 +0000
Subject: [PATCH 41/87] fix: keep Max-Forwards when an INVITE is repeated with
 credentials

---
 sippy/UA.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index 5e02e25..84fb433 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -210,7 +210,9 @@ class UA(object):
                 break
         else:
             return False
-        req = self.genRequest('INVITE', self.lSDP, (challenge, qop), extra_headers = extra_headers)
+        max_forwards = self.reqs[cseq].getHFBody('max-forwards').getNum()
+        req = self.genRequest('INVITE', self.lSDP, (challenge, qop), extra_headers = extra_headers, \
+          max_forwards = max_forwards)
         self.newUacTransaction(req, req_extra_headers = extra_headers)
         del self.reqs[cseq]
         return True
-- 
2.43.0


From a2b3abfae4c2370bb9416a57f8924df7eafeb9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:25 +0000
Subject: [PATCH 42/87] fix: do not answer a challenge for a call that has been
 given up

---
 sippy/UA.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index 84fb433..090fcde 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -223,7 +223,8 @@ class UA(object):
         self.update_ua(resp)
         code, reason = resp.getSCode()
         cseq, method = resp.getHFBody('cseq').getCSeq()
-        if method == 'INVITE' and not self.pass_auth and cseq in self.reqs:
+        if method == 'INVITE' and not self.pass_auth and cseq in self.reqs and \
+          self.disconnect_ts is None:
             if code == 401 and self.processChallenge(resp, cseq, \
               'www-authenticate', 'authorization', tr.req_extra_headers):
                 return None
-- 
2.43.0


From 552d7bfbe158065c061630e2912690a014954eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:37 +0000
Subject: [PATCH 43/87] fix: report the real session time in interim accounting

---
 sippy/RadiusAccounting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/RadiusAccounting.py b/sippy/RadiusAccounting.py
index f146581..87903d6 100644
--- a/sippy/RadiusAccounting.py
+++ b/sippy/RadiusAccounting.py
@@ -27,6 +27,7 @@
 
 from time import time, strftime, gmtime
 from sippy.Time.Timeout import Timeout
+from sippy.Time.MonoTime import MonoTime
 
 sipErrToH323Err = {400:('7f', 'Interworking, unspecified'), 401:('39', 'Bearer capability not authorized'), \
   402:('15', 'Call rejected'), 403:('39', 'Bearer capability not authorized'), 404:('1', 'Unallocated number'), \
@@ -121,7 +122,7 @@ class RadiusAccounting(object):
         if not self.complete:
             return
         if rtime == None:
-            rtime = time()
+            rtime = MonoTime()
         if ua != None:
             duration, delay, connected = ua.getAcct()[:3]
         else:
-- 
2.43.0


From 68a0d4f013d3701de29f0c1450561c1055ff197c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:42 +0000
Subject: [PATCH 44/87] fix: send the challenge along with the 401

---
 sippy/b2bua.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 4842def..ee8219d 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -224,7 +224,7 @@ class CallController(object):
             if isinstance(self.uaA.state, self.uaA.UasStateTrying):
                 if self.challenge != None:
                     event = CCEventFail((401, 'Unauthorized'))
-                    event.extra_header = self.challenge
+                    event.challenges = [self.challenge,]
                 else:
                     event = CCEventFail((403, 'Auth Failed'))
                 self.uaA.recvEvent(event)
-- 
2.43.0


From b2bc1dba3f42ec6c9d3af2ff8c5434234e6c4f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:53 +0000
Subject: [PATCH 45/87] fix: management commands l, lt, llt, d * and r must
 work

---
 sippy/B2B/SimpleAPI.py | 25 ++++++++++---------------
 sippy/b2bua.py         |  5 ++++-
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/sippy/B2B/SimpleAPI.py b/sippy/B2B/SimpleAPI.py
index 2f6c0c9..35e792f 100644
--- a/sippy/B2B/SimpleAPI.py
+++ b/sippy/B2B/SimpleAPI.py
@@ -54,7 +54,7 @@ class B2BSimpleAPI(CLIConnectionManager):
         if cmd == 'l':
             res = 'In-memory calls:\n'
             total = 0
-            for (cid, sname), uaast, uaost in ccm.listActiveCalls():
+            for cid, sname, uaast, uaost in ccm.listActiveCalls():
                 res += f'{cid}: {sname} ('
                 if uaast is not None:
                     _s, _t, _h, _p, _cld, _cli = uaast
@@ -70,15 +70,6 @@ class B2BSimpleAPI(CLIConnectionManager):
             res += 'Total: %d\n' % total
             clim.send(res)
             return False
-        if cmd == 'lt':
-            res = 'In-memory server transactions:\n'
-            for tid, t in self.global_config['_sip_tm'].tserver.iteritems():
-                res += '%s %s %s\n' % (tid, t.method, t.state)
-            res += 'In-memory client transactions:\n'
-            for tid, t in self.global_config['_sip_tm'].tclient.iteritems():
-                res += '%s %s %s\n' % (tid, t.method, t.state)
-            clim.send(res)
-            return False
         if cmd in ('lt', 'llt'):
             if cmd == 'llt':
                 mindur = 60.0
@@ -86,13 +77,13 @@ class B2BSimpleAPI(CLIConnectionManager):
                 mindur = 0.0
             ctime = MonoTime()
             res = 'In-memory server transactions:\n'
-            for tid, t in self.global_config['_sip_tm'].tserver.iteritems():
+            for tid, t in self.global_config['_sip_tm'].tserver.items():
                 duration = ctime - t.rtime
                 if duration < mindur:
                     continue
                 res += '%s %s %s %s\n' % (tid, t.method, t.state, duration)
             res += 'In-memory client transactions:\n'
-            for tid, t in self.global_config['_sip_tm'].tclient.iteritems():
+            for tid, t in self.global_config['_sip_tm'].tclient.items():
                 duration = ctime - t.rtime
                 if duration < mindur:
                     continue
@@ -104,7 +95,7 @@ class B2BSimpleAPI(CLIConnectionManager):
                 clim.send('ERROR: syntax error: d <call-id>\n')
                 return False
             if args[0] == '*':
-                self.discAll()
+                ccm.discAll()
                 clim.send('OK\n')
                 return False
             dlist = [x for x in ccm.ccmap if str(x.cId) == args[0]]
@@ -119,8 +110,12 @@ class B2BSimpleAPI(CLIConnectionManager):
             if len(args) not in (1, 2):
                 clim.send('ERROR: syntax error: r <id> [<media-index>]\n')
                 return False
-            idx = int(args[0])
-            media_index = int(args[1]) if len(args) == 2 else 0
+            try:
+                idx = int(args[0])
+                media_index = int(args[1]) if len(args) == 2 else 0
+            except ValueError:
+                clim.send('ERROR: syntax error: r <id> [<media-index>]\n')
+                return False
             dlist = [x for x in ccm.ccmap if x.id == idx]
             if len(dlist) == 0:
                 clim.send('ERROR: no call with id of %d has been found\n' % idx)
diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index ee8219d..c547af2 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -539,6 +539,9 @@ class CallMap(object):
     def safeStop(self, signum):
         print('Signal %d received, scheduling safe stop' % signum)
         self.discAll(signum)
+        if self.safe_stop:
+            # Already stopping
+            return
         self.safe_stop = True
         self.global_config['_executeStop_count'] = 0
         self.er_timer = Timeout(self.executeStop, 0.5, -1)
@@ -604,7 +607,7 @@ class CallMap(object):
             else:
                 r.append(None)
             if cc.uaO != None:
-                (_h, _p), _t = cc.uaA.getRAddr0()
+                (_h, _p), _t = cc.uaO.getRAddr0()
                 r.append((cc.uaO.state.sname, _t, _h, _p,
                          cc.uaO.getCLI(), cc.uaO.getCLD()))
             else:
-- 
2.43.0


From dfa366b05bef50ba99003a715ffcbef2748bc588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:58 +0000
Subject: [PATCH 46/87] fix: an INVITE with a stale CSeq must not take over the
 transaction of the accepted one

---
 sippy/SipTransactionManager.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index e448357..be82e2b 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -619,7 +619,10 @@ class SipTransactionManager(object):
         if  msg.getMethod() != 'ACK':
             tid = msg.getTId(wBRN = True)
         else:
-            tid = msg.getTId(wTTG = True)
+            # Another INVITE sharing CSeq and To tag stays keyed by its branch
+            tid = msg.getTId(wBRN = True)
+            if tid not in self.tserver or self.tserver[tid].state != COMPLETED:
+                tid = msg.getTId(wTTG = True)
         t = self.tserver.get(tid, None)
         if t == None and msg.getMethod() == 'CANCEL':
             # Completed INVITE is keyed by its To tag, look it up by branch
@@ -788,11 +791,11 @@ class SipTransactionManager(object):
                     # same branch and From tag. Use To tag to match
                     # ACK transaction after this point. Branch tag in ACK
                     # could differ as well.
-                    del self.tserver[t.tid]
-                    t.tid = list(t.tid[:-1])
-                    t.tid.append(resp.getHFBody('to').getTag())
-                    t.tid = tuple(t.tid)
-                    self.tserver[t.tid] = t
+                    ntid = t.tid[:-1] + (resp.getHFBody('to').getTag(),)
+                    if ntid not in self.tserver:
+                        del self.tserver[t.tid]
+                        t.tid = ntid
+                        self.tserver[t.tid] = t
                 # Install retransmit timer if necessary
                 t.tout = 0.5
                 t.teA = Timeout(self.timerA, t.tout, 1, t)
-- 
2.43.0


From 3d9125459c29feeddd8ace343a4e58a85b9b9cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:08 +0000
Subject: [PATCH 47/87] fix: answer every request received within a dialog,
 take INFO and OPTIONS during an update

---
 sippy/UaStateGeneric.py   | 1 +
 sippy/UacStateUpdating.py | 3 +++
 sippy/UasStateUpdating.py | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/sippy/UaStateGeneric.py b/sippy/UaStateGeneric.py
index 6b553cd..f0248a9 100644
--- a/sippy/UaStateGeneric.py
+++ b/sippy/UaStateGeneric.py
@@ -41,6 +41,7 @@ class UaStateGeneric(object):
         handler = self.recv_request_handlers.get(req.getMethod())
         if handler is not None:
             return handler(self, req)
+        req.sendResponse(501, 'Not Implemented')
         return None
 
     def recvResponse(self, resp, tr):
diff --git a/sippy/UacStateUpdating.py b/sippy/UacStateUpdating.py
index e42228e..0722414 100644
--- a/sippy/UacStateUpdating.py
+++ b/sippy/UacStateUpdating.py
@@ -29,6 +29,7 @@ from functools import partial
 from sippy.SipHeader import SipHeader
 from sippy.SipReason import SipReason
 from sippy.UaStateGeneric import UaStateGeneric
+from sippy.UaStateConnected import UaStateConnected
 from sippy.CCEvents import CCEventDisconnect, CCEventRing, CCEventConnect, CCEventFail, CCEventRedirect
 from sippy.Exceptions.SdpParseError import SdpHandlingErrors
 
@@ -51,6 +52,8 @@ class UacStateUpdating(UaStateGeneric):
     recv_request_handlers = {
       'INVITE': _recvRequestInvite,
       'BYE': _recvRequestBye,
+      'INFO': UaStateConnected._recvRequestInfo,
+      'OPTIONS': UaStateConnected._recvRequestOptions,
     }
 
     def recvResponse(self, resp, tr):
diff --git a/sippy/UasStateUpdating.py b/sippy/UasStateUpdating.py
index f6da07f..7a56115 100644
--- a/sippy/UasStateUpdating.py
+++ b/sippy/UasStateUpdating.py
@@ -25,6 +25,7 @@
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 from sippy.UasStateGeneric import UasStateGeneric
+from sippy.UaStateConnected import UaStateConnected
 from sippy.CCEvents import CCEventDisconnect, CCEventRing, CCEventConnect, CCEventFail, CCEventRedirect
 
 class UasStateUpdating(UasStateGeneric):
@@ -57,6 +58,8 @@ class UasStateUpdating(UasStateGeneric):
     recv_request_handlers = {
       'INVITE': _recvRequestInvite,
       'BYE': _recvRequestBye,
+      'INFO': UaStateConnected._recvRequestInfo,
+      'OPTIONS': UaStateConnected._recvRequestOptions,
       'REFER': _recvRequestRefer,
     }
 
-- 
2.43.0


From 2bedd79552141964f6033d0ac7625c2bbd928a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:08 +0000
Subject: [PATCH 48/87] fix: a redirect or an update of a leg that is just
 being connected must not raise

---
 sippy/UaStateConnected.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 6aba887..dea2424 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -184,12 +184,17 @@ class UaStateConnected(UaStateGeneric):
 
     def _recvEventRedirect(self, event, eh):
         redirect = None
-        redirects = event.getData()
-        if redirects is not None:
-            redirect = redirects[0]
+        scode = event.getData()
+        if scode is not None and scode[3] is not None:
+            redirect = scode[3][0]
         return self._recvEventDisconnectFailRedirect(event, eh, redirect)
 
     def _recvEventUpdate(self, event, eh):
+        if self.ua.connect_ts is None:
+            # The offer sent in (or received with) 200 OK has not been
+            # answered in ACK yet
+            self.ua.equeue.append(CCEventFail((491, 'Request Pending'), rtime = event.rtime))
+            return None
         body = event.getData()
         fake_laddr = (('127.0.0.1', None), None)
         if (self.ua.lSDP.localStr(fake_laddr) if self.ua.lSDP is not None else None) == \
-- 
2.43.0


From 27e50b65506e14310d4e2ed1f08d8854aba47a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:08 +0000
Subject: [PATCH 49/87] fix: a leg that is over reports nothing more, a failed
 session update ends both legs or none

---
 sippy/UA.py | 50 ++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index 090fcde..78c12a0 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -32,7 +32,7 @@ from sippy.UacStateIdle import UacStateIdle
 from sippy.SipRequest import SipRequest
 from sippy.SipContentType import SipContentType
 from sippy.SipMaxForwards import SipMaxForwards
-from sippy.CCEvents import CCEventTry, CCEventFail, CCEventDisconnect, CCEventInfo
+from sippy.CCEvents import CCEventTry, CCEventFail, CCEventDisconnect, CCEventInfo, CCEventUpdate
 from sippy.MsgBody import MsgBody
 from sippy.Time.MonoTime import MonoTime
 from sippy.Time.Timeout import TimeoutAbsMono
@@ -253,6 +253,9 @@ class UA(object):
     def disconnect(self, rtime = None, origin = None):
         if rtime == None:
             rtime = MonoTime()
+        if self.disconnect_ts is not None:
+            # Already over (late ACK timeout or call limit timer)
+            return
         self.equeue.append(CCEventDisconnect(rtime = rtime, origin = origin))
         self.recvEvent(CCEventDisconnect(rtime = rtime, origin = origin))
 
@@ -416,24 +419,47 @@ class UA(object):
         return tuple(rval)
 
     def delayed_remote_sdp_update(self, event, remote_sdp_body, ex=None):
-        if ex is not None:
-            if not isinstance(ex, SdpHandlingErrors): raise ex
-            event = CCEventFail((ex.code, ex.msg))
-            event.reason_rfc3326 = ex.getReason()
-        else:
+        if self.disconnect_ts is not None:
+            # The leg has ended meanwhile
+            return
+        if ex is None:
             self.rSDP = remote_sdp_body.getCopy()
-        self.equeue.append(event)
+            self.equeue.append(event)
+            self.emitPendingEvents()
+            return
+        if not isinstance(ex, SdpHandlingErrors): raise ex
+        fevent = CCEventFail((ex.code, ex.msg))
+        fevent.reason_rfc3326 = ex.getReason()
+        if isinstance(event, CCEventUpdate):
+            # Refuse the update, the session stays as it was
+            if isinstance(self.state, self.UasStateUpdating):
+                self.recvEvent(fevent)
+            return
+        self.equeue.append(fevent)
         self.emitPendingEvents()
-        if ex is not None:
-            self.recvEvent(event)
+        if self.connect_ts is not None and event.rtime > self.connect_ts:
+            # The peer has updated the session already
+            self.disconnect()
+        else:
+            self.recvEvent(fevent)
 
     def delayed_local_sdp_update(self, event, local_sdp_body, ex=None):
         if ex is not None:
             if not isinstance(ex, SdpHandlingErrors): raise ex
-            event = CCEventFail((ex.code, ex.msg))
-            event.reason_rfc3326 = ex.getReason()
-            self.equeue.append(event)
+            if self.disconnect_ts is not None:
+                return
+            if self.connect_ts is not None and not isinstance(event, CCEventUpdate):
+                # The peer cannot be given the answer to its update
+                self.disconnect()
+                return
+            fevent = CCEventFail((ex.code, ex.msg))
+            fevent.reason_rfc3326 = ex.getReason()
+            self.equeue.append(fevent)
             self.emitPendingEvents()
+            if isinstance(event, CCEventUpdate):
+                # The session stays as it was
+                return
+            event = fevent
         self.recvEvent(event)
 
     def getAcct(self):
-- 
2.43.0


From ceb4139034f74cf0aa1f94a49615470e5bd3f789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:25 +0000
Subject: [PATCH 50/87] fix: follow the peer's latest Contact when a re-INVITE
 or its 2xx changes it

---
 sippy/UA.py               | 16 ++++++++++++++++
 sippy/UaStateConnected.py |  5 ++++-
 sippy/UacStateTrying.py   |  2 ++
 sippy/UacStateUpdating.py |  1 +
 sippy/UasStateIdle.py     |  2 ++
 5 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index 78c12a0..740a530 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -29,7 +29,9 @@ from secrets import token_hex
 from sippy.SipHeader import SipHeader
 from sippy.UasStateIdle import UasStateIdle
 from sippy.UacStateIdle import UacStateIdle
+from sippy.SipAddress import SipAddress
 from sippy.SipRequest import SipRequest
+from sippy.SipRoute import SipRoute
 from sippy.SipContentType import SipContentType
 from sippy.SipMaxForwards import SipMaxForwards
 from sippy.CCEvents import CCEventTry, CCEventFail, CCEventDisconnect, CCEventInfo, CCEventUpdate
@@ -69,6 +71,7 @@ class UA(object):
     rAddr0 = None
     routes = None
     rTarget = None
+    rTargetRouted = False
     uasResp = None
     lSDP = None
     rSDP = None
@@ -361,6 +364,19 @@ class UA(object):
             self.changeState(newstate)
         self.emitPendingEvents()
 
+    def refreshTarget(self, msg):
+        # re-INVITE and positive response to it carry the current
+        # Contact of the peer
+        if msg.countHFs('contact') == 0:
+            return
+        rTarget = msg.getHFBody('contact').getUrl().getCopy()
+        if self.rTargetRouted:
+            self.routes[-1] = SipRoute(address = SipAddress(url = rTarget))
+            return
+        self.rTarget = rTarget
+        if len(self.routes) == 0:
+            self.rAddr = rTarget.getTAddr()
+
     def isYours(self, req = None, call_id = None, from_tag = None, to_tag = None):
         #print(self.branch, req.getHFBody('via').getBranch())
         if req != None:
diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index dea2424..a2e2c5e 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -69,6 +69,7 @@ class UaStateConnected(UaStateGeneric):
             # answered in ACK yet
             req.sendResponse(491, 'Request Pending')
             return None
+        self.ua.refreshTarget(req)
         self.ua.uasResp = req.genResponse(100, 'Trying', server = self.ua.local_ua)
         self.ua.global_config['_sip_tm'].sendResponse(self.ua.uasResp)
         body = req.getBody()
@@ -283,9 +284,11 @@ class UaStateConnected(UaStateGeneric):
         self.ua.disconnect()
 
     def keepAliveResp(self, resp):
+        code, reason = resp.getSCode()
+        if code >= 200 and code < 300:
+            self.ua.refreshTarget(resp)
         if self.ua.state != self:
             return
-        code, reason = resp.getSCode()
         if code == 401 and resp.countHFs('www-authenticate') != 0 and \
           self.ua.username != None and self.ua.password != None and not self.triedauth:
             challenge = resp.getHFBody('www-authenticate')
diff --git a/sippy/UacStateTrying.py b/sippy/UacStateTrying.py
index 477839e..662aa50 100644
--- a/sippy/UacStateTrying.py
+++ b/sippy/UacStateTrying.py
@@ -168,10 +168,12 @@ class UacStateTrying(UaStateGeneric):
         if len(self.ua.routes) > 0:
             if not self.ua.routes[0].getUrl().lr:
                 self.ua.routes.append(SipRoute(address = SipAddress(url = self.ua.rTarget)))
+                self.ua.rTargetRouted = True
                 self.ua.rTarget = self.ua.routes.pop(0).getUrl()
                 self.ua.rAddr = self.ua.rTarget.getTAddr()
             elif self.ua.outbound_proxy != None:
                 self.ua.routes.append(SipRoute(address = SipAddress(url = self.ua.rTarget)))
+                self.ua.rTargetRouted = True
                 self.ua.rTarget = self.ua.routes[0].getUrl().getCopy()
                 self.ua.rTarget.lr = False
                 self.ua.rTarget.other = tuple()
diff --git a/sippy/UacStateUpdating.py b/sippy/UacStateUpdating.py
index 0722414..201d113 100644
--- a/sippy/UacStateUpdating.py
+++ b/sippy/UacStateUpdating.py
@@ -65,6 +65,7 @@ class UacStateUpdating(UaStateGeneric):
                 self.ua.equeue.append(CCEventRing(scode, rtime = resp.rtime, origin = self.ua.origin))
             return None
         if code >= 200 and code < 300:
+            self.ua.refreshTarget(resp)
             event = CCEventConnect(scode, rtime = resp.rtime, origin = self.ua.origin)
             if body is not None:
                 if self.ua.on_remote_sdp_change != None:
diff --git a/sippy/UasStateIdle.py b/sippy/UasStateIdle.py
index 96be6cf..e3d8879 100644
--- a/sippy/UasStateIdle.py
+++ b/sippy/UasStateIdle.py
@@ -54,10 +54,12 @@ class UasStateIdle(UaStateGeneric):
         if len(self.ua.routes) > 0:
             if not self.ua.routes[0].getUrl().lr:
                 self.ua.routes.append(SipRoute(address = SipAddress(url = self.ua.rTarget)))
+                self.ua.rTargetRouted = True
                 self.ua.rTarget = self.ua.routes.pop(0).getUrl()
                 self.ua.rAddr = self.ua.rTarget.getTAddr()
             elif self.ua.outbound_proxy != None:
                 self.ua.routes.append(SipRoute(address = SipAddress(url = self.ua.rTarget)))
+                self.ua.rTargetRouted = True
                 self.ua.rTarget = self.ua.routes[0].getUrl().getCopy()
                 self.ua.rTarget.lr = False
                 self.ua.rTarget.other = tuple()
-- 
2.43.0


From 15345170924d03d3f156a3f70779fe62742dd864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:55 +0000
Subject: [PATCH 51/87] fix: tolerate challenges that are malformed or not
 Digest

---
 sippy/SipWWWAuthenticate.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/sippy/SipWWWAuthenticate.py b/sippy/SipWWWAuthenticate.py
index b7f6b0a..2a42151 100644
--- a/sippy/SipWWWAuthenticate.py
+++ b/sippy/SipWWWAuthenticate.py
@@ -41,6 +41,7 @@ class SipWWWAuthenticate(SipGenericHF):
     algorithm = None
     opaque = None
     otherparams = None
+    foreign = False
     ho = HashOracle()
 
     def __init__(self, body = None, realm = None, nonce = None, \
@@ -61,9 +62,14 @@ class SipWWWAuthenticate(SipGenericHF):
         self.nonce = nonce
 
     def parse(self):
-        for part in split_unquoted(self.body.split(None, 1)[1], ','):
-            if len(part.strip()) == 0:
-                continue
+        scheme, params = (self.body.split(None, 1) + ['', ''])[:2]
+        parts = [x for x in split_unquoted(params, ',') if len(x.strip()) > 0]
+        if scheme.lower() != 'digest' or len([x for x in parts if '=' not in x]) > 0:
+            # Some other scheme or broken, not for us to interpret
+            self.foreign = True
+            self.parsed = True
+            return
+        for part in parts:
             name, value = [x.strip() for x in part.split('=', 1)]
             value = unquote_string(value)
             ci_name = name.lower()
@@ -87,7 +93,7 @@ class SipWWWAuthenticate(SipGenericHF):
         return self.localStr()
 
     def localStr(self, local_addr = None):
-        if not self.parsed:
+        if not self.parsed or self.foreign:
             return self.body
         if local_addr == None or 'my' not in dir(self.realm):
             local_addr = self.realm
@@ -109,7 +115,7 @@ class SipWWWAuthenticate(SipGenericHF):
         return rval
 
     def getCopy(self):
-        if not self.parsed:
+        if not self.parsed or self.foreign:
             return self.__class__(self.body)
         cself = self.__class__(realm = self.realm, nonce = self.nonce)
         cself.algorithm = self.algorithm
@@ -141,6 +147,8 @@ class SipWWWAuthenticate(SipGenericHF):
         return auth
 
     def supportedAlgorithm(self):
+        if self.foreign or self.realm is None or self.nonce is None:
+            return False, None
         if self.qop is not None:
             qops = [x for x in self.qop if x in ('auth', 'auth-int')]
             if len(qops) == 0:
-- 
2.43.0


From 2a20d8943a3922e56c5e1c8186c82e4f08fa2507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:55 +0000
Subject: [PATCH 52/87] fix: UA: keep the other party's credentials on
 re-challenge, fix keep-alive challenge

---
 sippy/UA.py               | 23 +++++++++++++++--------
 sippy/UaStateConnected.py | 20 +++++++-------------
 2 files changed, 22 insertions(+), 21 deletions(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index 740a530..ac8c3a9 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -200,22 +200,29 @@ class UA(object):
         else:
             return None
 
-    def processChallenge(self, resp, cseq, ch_hfname, auth_hfname, extra_headers):
-        if self.username == None or self.password == None or \
-          self.reqs[cseq].countHFs(auth_hfname) != 0:
-            return False
+    def selectChallenge(self, resp, ch_hfname):
         for challenge in resp.getHFBodys(ch_hfname):
-            #print(self.processChallenge, cseq, challenge, challenge.algorithm)
             if self.auth_enalgs is not None and challenge.algorithm not in self.auth_enalgs:
                 continue
             supported, qop = challenge.supportedAlgorithm()
             if supported:
-                break
-        else:
+                return (challenge, qop)
+        return None
+
+    def processChallenge(self, resp, cseq, ch_hfname, auth_hfname, extra_headers):
+        if self.username == None or self.password == None or \
+          self.reqs[cseq].countHFs(auth_hfname) != 0:
+            return False
+        cqop = self.selectChallenge(resp, ch_hfname)
+        if cqop is None:
             return False
         max_forwards = self.reqs[cseq].getHFBody('max-forwards').getNum()
-        req = self.genRequest('INVITE', self.lSDP, (challenge, qop), extra_headers = extra_headers, \
+        req = self.genRequest('INVITE', self.lSDP, cqop, extra_headers = extra_headers, \
           max_forwards = max_forwards)
+        for hfname in ('authorization', 'proxy-authorization'):
+            # Keep credentials given to the other party (server or proxy)
+            if hfname != auth_hfname:
+                req.appendHeaders([x.getCopy() for x in self.reqs[cseq].getHFs(hfname)])
         self.newUacTransaction(req, req_extra_headers = extra_headers)
         del self.reqs[cseq]
         return True
diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index a2e2c5e..2af2bd2 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -289,20 +289,14 @@ class UaStateConnected(UaStateGeneric):
             self.ua.refreshTarget(resp)
         if self.ua.state != self:
             return
-        if code == 401 and resp.countHFs('www-authenticate') != 0 and \
+        if code in (401, 407) and not self.ua.pass_auth and \
           self.ua.username != None and self.ua.password != None and not self.triedauth:
-            challenge = resp.getHFBody('www-authenticate')
-            req = self.ua.genRequest('INVITE', self.ua.lSDP, challenge)
-            self.ka_tr = self.ua.newTransaction(req, resp_cb = self.keepAliveResp)
-            self.triedauth = True
-            return
-        if code == 407 and resp.countHFs('proxy-authenticate') != 0 and \
-          self.ua.username != None and self.ua.password != None and not self.triedauth:
-            challenge = resp.getHFBody('proxy-authenticate')
-            req = self.ua.genRequest('INVITE', self.ua.lSDP, challenge)
-            self.ka_tr = self.ua.newTransaction(req, resp_cb = self.keepAliveResp)
-            self.triedauth = True
-            return
+            cqop = self.ua.selectChallenge(resp, 'www-authenticate' if code == 401 else 'proxy-authenticate')
+            if cqop is not None:
+                req = self.ua.genRequest('INVITE', self.ua.lSDP, cqop)
+                self.ka_tr = self.ua.newTransaction(req, resp_cb = self.keepAliveResp)
+                self.triedauth = True
+                return
         if code < 200:
             return
         self.ka_tr = None
-- 
2.43.0


From 2bc8fcb68193897ad3271e33ea9b2cf2b96f86ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:55 +0000
Subject: [PATCH 53/87] fix: SipRegistrationAgent: send requested expires, find
 own binding in the response

---
 sippy/SipRegistrationAgent.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/sippy/SipRegistrationAgent.py b/sippy/SipRegistrationAgent.py
index 2b662ca..c1d6b7d 100644
--- a/sippy/SipRegistrationAgent.py
+++ b/sippy/SipRegistrationAgent.py
@@ -52,13 +52,14 @@ class SipRegistrationAgent(object):
         self.cb_arg = cb_arg
         ruri = aor.getCopy()
         ruri.username = None
+        aor = aor.getCopy()
         aor.port = None
         tfaddr = SipAddress(url = aor)
         fr0m = SipFrom(address = tfaddr.getCopy())
         fr0m.genTag()
         to = SipTo(address = tfaddr)
         contact = SipContact(address = SipAddress(url = contact))
-        contact.address.params['expires'] = str(exp)
+        contact.address.setParam('expires', str(exp))
         self.exp = exp
         self.rmsg = SipRequest(method = 'REGISTER', ruri = ruri, fr0m = fr0m, contact = contact, to = to, target = target)
 
@@ -74,6 +75,18 @@ class SipRegistrationAgent(object):
         self.dead = True
         self.rmsg = None
 
+    def ourContact(self, contacts):
+        # The registrar lists every binding of the AOR
+        url = self.rmsg.getHFBody('contact').getUrl()
+        for contact in contacts:
+            if contact.asterisk:
+                continue
+            curl = contact.getUrl()
+            if curl.username == url.username and str(curl.host) == str(url.host) and \
+              curl.getAddr()[1] == url.getAddr()[1]:
+                return contact
+        return contacts[0] if not contacts[0].asterisk else None
+
     def gotreply(self, resp):
         if self.dead:
             return
@@ -82,9 +95,12 @@ class SipRegistrationAgent(object):
         if resp.scode >= 200 and resp.scode < 300 and resp.reason != 'Auth Failed':
             contact = None
             if resp.countHFs('contact') > 0:
-                contact = resp.getHFBody('contact')
-            if contact != None and 'expires' in contact.address.params:
-                tout = int(contact.address.params['expires'])
+                contact = self.ourContact(resp.getHFBodys('contact'))
+            expires = None
+            if contact != None:
+                expires = dict((k.lower(), v) for k, v in contact.address.params.items()).get('expires')
+            if expires != None and expires.isdigit():
+                tout = int(expires)
             elif resp.countHFs('expires') > 0:
                 tout = resp.getHFBody('expires').getNum()
             else:
@@ -101,9 +117,11 @@ class SipRegistrationAgent(object):
                     continue
                 if resp.countHFs(chn) == 0:
                     break
-                challenge = resp.getHFBody(chn)
-                supported, qop = challenge.supportedAlgorithm()
-                if not supported:
+                for challenge in resp.getHFBodys(chn):
+                    supported, qop = challenge.supportedAlgorithm()
+                    if supported:
+                        break
+                else:
                     break
                 auth = challenge.genAuthHF(self.user, self.passw, 'REGISTER',
                                            str(self.rmsg.ruri), qop=qop)
-- 
2.43.0


From d97bab9e0e98e7adf6f9a0af4d178b598a479c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:30 +0000
Subject: [PATCH 54/87] fix: media policy: filter RTP/AVPF, every payload of a
 named codec, multipart bodies

---
 sippy/Rtp_proxy/session.py   |  2 +-
 sippy/SdpMediaDescription.py | 16 +++++++++++-----
 sippy/b2bua.py               | 18 +++++++++++++-----
 3 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/sippy/Rtp_proxy/session.py b/sippy/Rtp_proxy/session.py
index 307b139..88a4d0b 100644
--- a/sippy/Rtp_proxy/session.py
+++ b/sippy/Rtp_proxy/session.py
@@ -43,7 +43,7 @@ from sippy.Rtp_proxy.Session.side import _rtpps_side
 from sippy.Rtp_proxy.Session.update import update_params
 
 class Rtp_proxy_session(object):
-    AV_TRTYPES = ('rtp/avp', 'rtp/savp', 'rtp/savpf', 'udp/tls/rtp/savp', 'udp/tls/rtp/savpf')
+    AV_TRTYPES = ('rtp/avp', 'rtp/avpf', 'rtp/savp', 'rtp/savpf', 'udp/tls/rtp/savp', 'udp/tls/rtp/savpf')
     SUPPORTED_TRTYPES = AV_TRTYPES + ('udp', 'udptl', 'udp/bfcp')
     rtp_proxy_client = None
     rtpp_seq = None
diff --git a/sippy/SdpMediaDescription.py b/sippy/SdpMediaDescription.py
index 8a422c7..68aa71a 100644
--- a/sippy/SdpMediaDescription.py
+++ b/sippy/SdpMediaDescription.py
@@ -115,14 +115,20 @@ class SdpMediaDescription(object):
         assert(name == 'a')
         self.a_headers.insert(indx, a_header(header))
 
+    def getPTsbyName(self, name):
+        rval = []
+        for ah in [x for x in self.a_headers if x.name == 'rtpmap' and x.value is not None]:
+            pt, _, pname = ah.value.partition(' ')
+            if pname.strip() == name and pt.isdigit():
+                rval.append(int(pt))
+        return rval
+
     def getPTbyName(self, name):
-        for ah in self.a_headers:
-            if ah.name == 'rtpmap' and ah.value.split(' ', 1)[1] == name:
-                return int(ah.value.split(' ', 1)[0])
-        return None
+        pts = self.getPTsbyName(name)
+        return pts[0] if len(pts) > 0 else None
 
     def optimize_a(self):
-        for ah in [x for x in self.a_headers if x.name in ('rtpmap', 'fmtp') and \
+        for ah in [x for x in self.a_headers if x.name in ('rtpmap', 'fmtp', 'rtcp-fb') and \
           x.value is not None]:
             try:
                 pt = int(ah.value.split(' ', 1)[0])
diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index c547af2..2b21d6e 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -56,6 +56,7 @@ from sippy.B2B.Route import B2BRoute, SRC_PROXY, SRC_WSS, DST_SIP_UA, DST_WSS_UA
 from sippy.Wss_server import Wss_server, Wss_server_opts
 from sippy.SipURL import SipURL
 from sippy.Exceptions.SdpParseError import SdpParseError
+from sippy.MultipartMixBody import MultipartMixBody
 
 from sippy.B2B.States import CCStateIdle, CCStateWaitRoute, CCStateARComplete, \
   CCStateConnected, CCStateDead, CCStateDisconnecting
@@ -138,9 +139,7 @@ class CallController(object):
         if '_allowed_pts' in self.global_config:
             self.uaA.on_remote_sdp_change = self.filter_SDP
 
-    def filter_SDP(self, body, done_cb, prev_orc = None):
-        if prev_orc is not None:
-            prev_orc = prev_orc()
+    def getSDPSections(self, body):
         try:
             body.parse()
         except Exception as exception:
@@ -148,13 +147,22 @@ class CallController(object):
             if not is_spe:
                 dump_exception('can\'t parse SDP body', extra = body.content)
             raise SdpParseError(f'{exception}') from exception if not is_spe else exception
+        if isinstance(body.content, MultipartMixBody):
+            return [sect for part in body.content.parts for sect in self.getSDPSections(part)]
+        return getattr(body.content, 'sections', ())
+
+    def filter_SDP(self, body, done_cb, prev_orc = None):
+        if prev_orc is not None:
+            prev_orc = prev_orc()
         allowed_pts = self.global_config['_allowed_pts']
-        for sect in body.content.sections:
+        for sect in self.getSDPSections(body):
             mbody = sect.m_header
             if mbody.transport.lower() not in self.rtpps_cls.AV_TRTYPES:
                 continue
             old_len = len(mbody.formats)
-            _allowed_pts = [x if isinstance(x, int) else sect.getPTbyName(x) for x in allowed_pts]
+            _allowed_pts = [x for x in allowed_pts if isinstance(x, int)]
+            for name in [x for x in allowed_pts if not isinstance(x, int)]:
+                _allowed_pts.extend(sect.getPTsbyName(name))
             mbody.formats = [x for x in mbody.formats if x in _allowed_pts]
             if len(mbody.formats) == 0:
                 raise SdpParseError('offered media prohibited by the policy')
-- 
2.43.0


From 397cc16d7aa27e5fa5b1dee4593ae31f88f6f2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:30 +0000
Subject: [PATCH 55/87] fix: refuse unusable SDP locally in Idle, Connected and
 ACK

---
 sippy/UaStateConnected.py | 14 ++++++++++++--
 sippy/UacStateTrying.py   |  3 +++
 sippy/UasStateIdle.py     | 13 +++++++++++--
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 2af2bd2..75cfd96 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -97,7 +97,13 @@ class UaStateConnected(UaStateGeneric):
             pass
         if body is not None:
             if self.ua.on_remote_sdp_change is not None:
-                body = self.ua.on_remote_sdp_change(body, partial(self.ua.delayed_remote_sdp_update, event))
+                try:
+                    body = self.ua.on_remote_sdp_change(body, partial(self.ua.delayed_remote_sdp_update, event))
+                except SdpHandlingErrors as ex:
+                    # Refuse the update, the session stays as it was
+                    self.ua.changeState((self.ua.UasStateUpdating,))
+                    self.ua.delayed_remote_sdp_update(event, None, ex)
+                    return None
                 if body is None:
                     return (self.ua.UasStateUpdating,)
             self.ua.rSDP = body.getCopy()
@@ -149,7 +155,11 @@ class UaStateConnected(UaStateGeneric):
             callback(self.ua, req.rtime, self.ua.origin)
         if body is not None:
             if self.ua.on_remote_sdp_change != None:
-                body = self.ua.on_remote_sdp_change(body, partial(self.ua.delayed_remote_sdp_update, event))
+                try:
+                    body = self.ua.on_remote_sdp_change(body, partial(self.ua.delayed_remote_sdp_update, event))
+                except SdpHandlingErrors as ex:
+                    self.ua.delayed_remote_sdp_update(event, None, ex)
+                    return None
                 if body is None:
                     return None
             self.ua.rSDP = body.getCopy()
diff --git a/sippy/UacStateTrying.py b/sippy/UacStateTrying.py
index 662aa50..82cf43a 100644
--- a/sippy/UacStateTrying.py
+++ b/sippy/UacStateTrying.py
@@ -199,6 +199,9 @@ class UacStateTrying(UaStateGeneric):
                 self.ua.global_config['_sip_tm'].cancelTransaction(self.ua.tr,
                   extra_headers = event.getExtraHeaders())
             elif code >= 200 and code < 300:
+                if self.ua.pending_tr is not None:
+                    self.ua.global_config['_sip_tm'].sendACK(self.ua.pending_tr)
+                    self.ua.pending_tr = None
                 self.genBYE()
             self.ua.equeue.append(event)
             self.ua.disconnect_ts = resp.rtime
diff --git a/sippy/UasStateIdle.py b/sippy/UasStateIdle.py
index e3d8879..9e43851 100644
--- a/sippy/UasStateIdle.py
+++ b/sippy/UasStateIdle.py
@@ -30,11 +30,12 @@ from sippy.Time.Timeout import TimeoutAbsMono
 from sippy.SipAddress import SipAddress
 from sippy.SipRoute import SipRoute
 from sippy.UaStateGeneric import UaStateGeneric
-from sippy.CCEvents import CCEventTry
+from sippy.CCEvents import CCEventTry, CCEventFail
 from sippy.SipContact import SipContact
 from sippy.SipCSeq import SipCSeq
 from sippy.SipFrom import SipFrom
 from sippy.SipTo import SipTo
+from sippy.Exceptions.SdpParseError import SdpHandlingErrors
 
 class UasStateIdle(UaStateGeneric):
     sname = 'Idle(UAS)'
@@ -103,7 +104,15 @@ class UasStateIdle(UaStateGeneric):
             self.ua.expire_timer = TimeoutAbsMono(self.ua.expires, self.ua.expire_mtime)
         if body is not None:
             if self.ua.on_remote_sdp_change != None:
-                body = self.ua.on_remote_sdp_change(body, partial(self.ua.delayed_remote_sdp_update, event))
+                try:
+                    body = self.ua.on_remote_sdp_change(body, partial(self.ua.delayed_remote_sdp_update, event))
+                except SdpHandlingErrors as ex:
+                    # Nobody has been told about this call yet, just refuse it
+                    fevent = CCEventFail((ex.code, ex.msg), rtime = event.rtime)
+                    fevent.reason_rfc3326 = ex.getReason()
+                    self.ua.setup_ts = req.rtime
+                    self.ua.changeState((self.ua.UasStateTrying,))
+                    return self.ua.state.recvEvent(fevent)
                 if body is None:
                     self.ua.setup_ts = req.rtime
                     return (self.ua.UasStateTrying,)
-- 
2.43.0


From f60692b86d362c51f47879dd4e70b704a2c927d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:04 +0000
Subject: [PATCH 56/87] fix: NAT: look at every Contact of a request, ignore
 received= set by the sender

---
 sippy/SipTransactionManager.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index be82e2b..10345a7 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -349,30 +349,33 @@ class SipTransactionManager(object):
                 req.nated = True
             if ahost != rhost:
                 via0.params['received'] = ra.received
+            else:
+                # Nobody but us is supposed to add it
+                via0.params.pop('received', None)
             if 'rport' in via0.params or req.nated:
                 via0.params['rport'] = str(rport)
 
             def usable_contact():
                 return req.countHFs('contact') > 0 and req.countHFs('via') == 1
 
-            def get_contact():
+            def get_contacts():
                 try:
-                    return req.getHFBody('contact')
+                    return req.getHFBodys('contact')
                 except Exception as exception:
                     dump_exception(f'can\'t parse SIP request from {ra}', extra = data)
                     self.l1rcache[checksum] = SipTMRetransmitO()
                     return None
 
             if self.nat_traversal and usable_contact():
-                if (cbody:=get_contact()) is None: return
-                if not cbody.asterisk:
+                if (cbodys:=get_contacts()) is None: return
+                for cbody in [x for x in cbodys if not x.asterisk]:
                     curl = cbody.getUrl()
                     if check1918(curl.host) or curl.port == 0 or curl.host == '255.255.255.255':
                         curl.host, curl.port = ra.address
                         req.nated = True
             if ra.transport == 'wss' and usable_contact():
-                if (cbody:=get_contact()) is None: return
-                if not cbody.asterisk:
+                if (cbodys:=get_contacts()) is None: return
+                for cbody in [x for x in cbodys if not x.asterisk]:
                     curl = cbody.getUrl()
                     curl.host = ra.received
             req.setSource(ra)
-- 
2.43.0


From a1eded77834fc25195b7d3d95fffedf637cddac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:06 +0000
Subject: [PATCH 57/87] fix: CLIManager: close connections that were reset and
 let queued replies out after EOF

---
 sippy/CLIManager.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sippy/CLIManager.py b/sippy/CLIManager.py
index 1f9c47c..f06b4fa 100644
--- a/sippy/CLIManager.py
+++ b/sippy/CLIManager.py
@@ -194,12 +194,10 @@ class _CLIManager_w(Thread):
             while True:
                 try:
                     res = self.clientsock.send(wbuffer)
-                except BrokenPipeError:
-                    self.clim = None
-                    return
                 except socket.error as why:
                     if why.errno != EBADF:
-                        raise
+                        # The other side is gone, nothing more can be delivered
+                        ED2.callFromThread(self.clim.shutdown)
                     self.clim = None
                     return
                 if res == len(wbuffer):
@@ -244,11 +242,13 @@ class _CLIManager_r(Thread):
             try:
                 data = self.clientsock.recv(1024)
             except socket.error as msg:
-                if msg.errno in (EBADF,):
-                    break
-                raise
+                if msg.errno != EBADF:
+                    ED2.callFromThread(self.clim.shutdown)
+                break
             if len(data) == 0:
-                ED2.callFromThread(self.clim.shutdown)
+                # No more commands, but the other side might still be
+                # reading replies to those that have been sent already
+                ED2.callFromThread(self.clim.close)
                 break
             try:
                 rbuffer += data.decode('ascii')
-- 
2.43.0


From 58ec608e12481170b78e228540e716af714f3c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:38 +0000
Subject: [PATCH 58/87] fix: External_command: let helpers end on shutdown

---
 sippy/External_command.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sippy/External_command.py b/sippy/External_command.py
index 36d40f1..4d908ef 100644
--- a/sippy/External_command.py
+++ b/sippy/External_command.py
@@ -89,6 +89,9 @@ class _Worker(Thread):
             wi.data = None
             wi.result_callback = None
             wi.callback_parameters = None
+        # Let the helper know that there is nothing left to do
+        pipe.stdin.close()
+        pipe.wait()
 
 class Work_item(object):
     cancelled = False
-- 
2.43.0


From b7d525ed24f2414f8290b5e610f28ab22eb9cde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:38 +0000
Subject: [PATCH 59/87] fix: External_command: do not wedge on helpers that
 write to stderr

---
 sippy/External_command.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/External_command.py b/sippy/External_command.py
index 4d908ef..e89de70 100644
--- a/sippy/External_command.py
+++ b/sippy/External_command.py
@@ -25,7 +25,7 @@
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 from threading import Condition
-from subprocess import Popen, PIPE
+from subprocess import Popen, PIPE, DEVNULL
 from sys import platform
 from threading import Thread, Lock
 from errno import EINTR
@@ -51,7 +51,7 @@ class _Worker(Thread):
         if platform == 'win32':
             need_close_fds = False
         pipe = Popen(self.command, shell = False, stdin = PIPE, \
-          stdout = PIPE, stderr = PIPE, close_fds = need_close_fds)
+          stdout = PIPE, stderr = DEVNULL, close_fds = need_close_fds)
         while True:
             self.master.work_available.acquire()
             while len(self.master.work) == 0:
-- 
2.43.0


From 03d16570c9c66c0533c0645be9f0e9b1904ab1b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:38 +0000
Subject: [PATCH 60/87] fix: External_command: keep line breaks in the data
 from splitting a request

---
 sippy/External_command.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sippy/External_command.py b/sippy/External_command.py
index e89de70..70995a9 100644
--- a/sippy/External_command.py
+++ b/sippy/External_command.py
@@ -69,7 +69,8 @@ class _Worker(Thread):
                 wi.result_callback = None
                 wi.callback_parameters = None
                 continue
-            batch = [x.encode() + b'\n' for x in wi.data]
+            # Requests are separated by an empty line, don't let line breaks in the data fake one
+            batch = [b' '.join((x if isinstance(x, bytes) else x.encode()).splitlines()) + b'\n' for x in wi.data]
             batch.append(b'\n')
             pipe.stdin.writelines(batch)
             pipe.stdin.flush()
-- 
2.43.0


From a98ad663505653a5fcd95b48f9383e06859280ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:38 +0000
Subject: [PATCH 61/87] fix: RadiusAuthorisation: return the work item so that
 a request can be cancelled

---
 sippy/RadiusAuthorisation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/RadiusAuthorisation.py b/sippy/RadiusAuthorisation.py
index 85e247a..b2f2db0 100644
--- a/sippy/RadiusAuthorisation.py
+++ b/sippy/RadiusAuthorisation.py
@@ -50,7 +50,7 @@ class RadiusAuthorisation(Radius_client):
         message = 'sending AAA request:\n' 
         message += reduce(lambda x, y: x + y, ['%-32s = \'%s\'\n' % (x[0], str(x[1])) for x in attributes])
         self.global_config['_sip_logger'].write(message, call_id = sip_cid)
-        Radius_client.do_auth(self, attributes, self._process_result, res_cb, sip_cid, time())
+        return Radius_client.do_auth(self, attributes, self._process_result, res_cb, sip_cid, time())
 
     def _process_result(self, results, res_cb, sip_cid, btime):
         delay = time() - btime
-- 
2.43.0


From a58004ffcd6254dbc7bef33e2d39e082fd1c91b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:38 +0000
Subject: [PATCH 62/87] fix: Radius_client: report an answer that cannot be
 parsed as failure

---
 sippy/Radius_client.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/sippy/Radius_client.py b/sippy/Radius_client.py
index 8c7b4d4..5f04f40 100644
--- a/sippy/Radius_client.py
+++ b/sippy/Radius_client.py
@@ -25,6 +25,7 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+from sippy.Core.Exceptions import dump_exception
 from sippy.External_command import External_command
 
 class Radius_client(External_command):
@@ -66,15 +67,22 @@ class Radius_client(External_command):
     def process_result(self, result_callback, result, *callback_parameters):
         if result_callback == None:
             return
-        nav = []
-        for av in result[:-1]:
-            a, v = [x.strip() for x in av.decode().split(' = ', 1)]
-            v = v.strip('\'')
-            if (a == 'Cisco-AVPair' or a in self._cisco_vsa_names):
-                t = v.split('=', 1)
-                if len(t) > 1:
-                    a, v = t
-            elif v.startswith(a + '='):
-                v = v[len(a) + 1:]
-            nav.append((a, v))
-        External_command.process_result(self, result_callback, (tuple(nav), int(result[-1])), *callback_parameters)
+        try:
+            nav = [self._parse_av(av) for av in result[:-1]]
+            rcode = int(result[-1])
+        except (ValueError, IndexError):
+            dump_exception('Radius_client: cannot parse the answer of the external command')
+            nav, rcode = (), -1
+        External_command.process_result(self, result_callback, (tuple(nav), rcode), *callback_parameters)
+
+    def _parse_av(self, av):
+        a, v = [x.strip() for x in av.decode().split(' = ', 1)]
+        if len(v) > 1 and v.startswith('\'') and v.endswith('\''):
+            v = v[1:-1]
+        if (a == 'Cisco-AVPair' or a in self._cisco_vsa_names):
+            t = v.split('=', 1)
+            if len(t) > 1:
+                a, v = t
+        elif v.startswith(a + '='):
+            v = v[len(a) + 1:]
+        return (a, v)
-- 
2.43.0


From 111e219028434550016cb104c597c1d32ce803d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:42 +0000
Subject: [PATCH 63/87] fix: EventDispatcher: run all handlers of a signal even
 if one ends the loop

---
 sippy/Core/EventDispatcher.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/Core/EventDispatcher.py b/sippy/Core/EventDispatcher.py
index 8900445..8cee89e 100644
--- a/sippy/Core/EventDispatcher.py
+++ b/sippy/Core/EventDispatcher.py
@@ -231,8 +231,8 @@ class EventDispatcher2(Singleton):
                     if isinstance(ex, SystemExit):
                         raise
                     dump_exception('EventDispatcher2: unhandled exception when processing signal event')
-                if self.endloop:
-                    return
+            if self.endloop:
+                return
 
     def dispatchThreadCallback(self, thread_cb, cb_params):
         try:
-- 
2.43.0


From 0d730d99e1c36aa90f95bf6f22d4b859fe7fda43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:42 +0000
Subject: [PATCH 64/87] fix: Signal: keep handlers registered later working
 when an earlier one is cancelled

---
 sippy/Signal.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/sippy/Signal.py b/sippy/Signal.py
index 6c30386..be92201 100644
--- a/sippy/Signal.py
+++ b/sippy/Signal.py
@@ -24,7 +24,7 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-from signal import signal, SIG_IGN, SIG_DFL
+from signal import signal, getsignal, SIG_IGN, SIG_DFL
 
 from sippy.Core.Exceptions import dump_exception
 from sippy.Core.EventDispatcher import ED2
@@ -41,7 +41,8 @@ class Signal(object):
         self.previous_handler = signal(signum, self.signal_handler)
 
     def signal_handler(self, signum, *frame):
-        ED2.callFromThread(self.dispatch)
+        if self.callback is not None:
+            ED2.callFromThread(self.dispatch)
         if self.previous_handler not in (SIG_IGN, SIG_DFL):
             try:
                 self.previous_handler(signum, *frame)
@@ -49,15 +50,25 @@ class Signal(object):
                 dump_exception('Signal: unhandled exception in signal chain')
 
     def dispatch(self):
+        if self.callback is None:
+            # cancelled in the meantime
+            return
         try:
             self.callback(*self.parameters)
         except:
             dump_exception('Signal: unhandled exception in signal callback')
 
     def cancel(self):
-        signal(self.signum, self.previous_handler)
         self.callback = None
         self.parameters = None
+        if getsignal(self.signum) != self.signal_handler:
+            # Somebody has been chained in front of us: stay there and pass
+            # the signal on until that one is gone
+            return
+        handler = self.previous_handler
+        while isinstance(getattr(handler, '__self__', None), Signal) and handler.__self__.callback is None:
+            handler = handler.__self__.previous_handler
+        signal(self.signum, handler)
         self.previous_handler = None
 
 def log_signal(signum, sip_logger, signal_cb, cb_params):
-- 
2.43.0


From 851eceffd9380e88add057f3baa31a7d02c2ea95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:34 +0000
Subject: [PATCH 65/87] fix: look for the path option in every Supported header

---
 sippy/StatefulProxy.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/sippy/StatefulProxy.py b/sippy/StatefulProxy.py
index c66f85a..ea14920 100644
--- a/sippy/StatefulProxy.py
+++ b/sippy/StatefulProxy.py
@@ -60,14 +60,11 @@ class StatefulProxy:
         self.global_config['_sip_tm'].sendResponse(resp)
 
     def insertPath(self, req):
-        try:
-            supported = req.getHFBody('supported')
-        except IndexError: pass
+        if not any('path' in supported.caps for supported in req.getHFBodys('supported')):
+            return
+        mypath = SipHeader(name = 'path')
+        if req.countHFs('path') == 0:
+            req.appendHeader(mypath)
         else:
-            if 'path' in supported.caps:
-                mypath = SipHeader(name = 'path')
-                if req.countHFs('path') == 0:
-                    req.appendHeader(mypath)
-                else:
-                    path1 = req.getHF('path')
-                    req.insertHeaderBefore(path1, mypath)
+            path1 = req.getHF('path')
+            req.insertHeaderBefore(path1, mypath)
-- 
2.43.0


From 7faa6192970fa56a4453acdde8c87d1cd00f8a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:07 +0000
Subject: [PATCH 66/87] fix: report missing session statistics when the relay
 does not answer

---
 sippy/Rtp_proxy/session.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/Rtp_proxy/session.py b/sippy/Rtp_proxy/session.py
index 88a4d0b..bee115c 100644
--- a/sippy/Rtp_proxy/session.py
+++ b/sippy/Rtp_proxy/session.py
@@ -176,9 +176,9 @@ class Rtp_proxy_session(object):
         self.rtp_proxy_client.send_command(command, self.stats_result, (result_callback, callback_parameters))
 
     def stats_result(self, result, args, ex=None):
-        t1 = result.split()
+        t1 = result.split() if result is not None else ()
         result_callback, callback_parameters = args
-        if len(t1) == 1:
+        if len(t1) <= 1:
             result_callback(None, *callback_parameters)
             return
         ttl, caller_rcount, callee_rcount, fwd_rcount, drop_rcount = [int(x) for x in t1]
-- 
2.43.0


From 277422e4e0ac664b5453a42a83dcdafa6477d05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:07 +0000
Subject: [PATCH 67/87] fix: do not take a relay into service when its feature
 queries have not been answered

---
 sippy/Rtp_proxy/client.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/sippy/Rtp_proxy/client.py b/sippy/Rtp_proxy/client.py
index 59c79fd..8fd10bb 100644
--- a/sippy/Rtp_proxy/client.py
+++ b/sippy/Rtp_proxy/client.py
@@ -39,6 +39,7 @@ CAPSTABLE = {'20071218':'copy_supported', '20080403':'stat_supported', \
 class Rtpp_caps_checker(object):
     caps_requested = 0
     caps_received = 0
+    caps_lost = False
     rtpc = None
 
     def __init__(self, rtpc):
@@ -51,13 +52,19 @@ class Rtpp_caps_checker(object):
     def caps_query_done(self, result, vers, ex=None):
         self.caps_received += 1
         vname = CAPSTABLE[vers]
+        if result is None:
+            self.caps_lost = True
         if result == '1':
             setattr(self.rtpc, vname, True)
         else:
             setattr(self.rtpc, vname, False)
         if self.caps_received == self.caps_requested:
-            self.rtpc.caps_done = True
-            self.rtpc.go_online()
+            if self.caps_lost:
+                # Some queries have not been answered, start all over
+                self.rtpc.schedule_version_check()
+            else:
+                self.rtpc.caps_done = True
+                self.rtpc.go_online()
             self.rtpc = None
 
 class Rtp_proxy_client(Rtp_proxy_client_udp, Rtp_proxy_client_stream):
@@ -215,9 +222,12 @@ class Rtp_proxy_client(Rtp_proxy_client_udp, Rtp_proxy_client_stream):
         elif self.online:
             self.go_offline()
         else:
-            to = TimeoutInact(self.version_check, self.hrtb_retr_ival)
-            to.spread_runs(0.1)
-            to.go()
+            self.schedule_version_check()
+
+    def schedule_version_check(self):
+        to = TimeoutInact(self.version_check, self.hrtb_retr_ival)
+        to.spread_runs(0.1)
+        to.go()
 
     def heartbeat(self):
         #print('heartbeat', self, self.address)
@@ -269,9 +279,7 @@ class Rtp_proxy_client(Rtp_proxy_client_udp, Rtp_proxy_client_stream):
         #print('go_offline', self.address, self.online)
         if self.online:
             self.online = False
-            to = TimeoutInact(self.version_check, self.hrtb_retr_ival)
-            to.spread_runs(0.1)
-            to.go()
+            self.schedule_version_check()
 
     def update_active(self, active_sessions, sessions_created, active_streams, preceived, ptransmitted):
         self.sessions_created = sessions_created
-- 
2.43.0


From 1241aaa46995d853e41d7143742c0a4e4358a6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:07 +0000
Subject: [PATCH 68/87] fix: keep watching a relay whose statistics are garbled

---
 sippy/Rtp_proxy/client.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/sippy/Rtp_proxy/client.py b/sippy/Rtp_proxy/client.py
index 8fd10bb..6722c6b 100644
--- a/sippy/Rtp_proxy/client.py
+++ b/sippy/Rtp_proxy/client.py
@@ -248,16 +248,20 @@ class Rtp_proxy_client(Rtp_proxy_client_udp, Rtp_proxy_client_stream):
             sessions_created = active_sessions = active_streams = preceived = ptransmitted = 0
             for line in stats.splitlines():
                 line_parts = line.split(':', 1)
-                if line_parts[0] == 'sessions created':
-                    sessions_created = int(line_parts[1])
-                elif line_parts[0] == 'active sessions':
-                    active_sessions = int(line_parts[1])
-                elif line_parts[0] == 'active streams':
-                    active_streams = int(line_parts[1])
-                elif line_parts[0] == 'packets received':
-                    preceived = int(line_parts[1])
-                elif line_parts[0] == 'packets transmitted':
-                    ptransmitted = int(line_parts[1])
+                try:
+                    if line_parts[0] == 'sessions created':
+                        sessions_created = int(line_parts[1])
+                    elif line_parts[0] == 'active sessions':
+                        active_sessions = int(line_parts[1])
+                    elif line_parts[0] == 'active streams':
+                        active_streams = int(line_parts[1])
+                    elif line_parts[0] == 'packets received':
+                        preceived = int(line_parts[1])
+                    elif line_parts[0] == 'packets transmitted':
+                        ptransmitted = int(line_parts[1])
+                except (ValueError, IndexError):
+                    # Garbled statistics, keep on watching
+                    pass
                 self.update_active(active_sessions, sessions_created, active_streams, preceived, ptransmitted)
         to = TimeoutInact(self.heartbeat, self.hrtb_ival)
         to.spread_runs(0.1)
-- 
2.43.0


From c16b03654b7acc1dde24ced6e633b2a694463829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:41 +0000
Subject: [PATCH 69/87] fix: read the whole reply of a relay connected by a
 stream socket

---
 sippy/Rtp_proxy/Client/Worker/external.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sippy/Rtp_proxy/Client/Worker/external.py b/sippy/Rtp_proxy/Client/Worker/external.py
index 097c99d..3f626bd 100644
--- a/sippy/Rtp_proxy/Client/Worker/external.py
+++ b/sippy/Rtp_proxy/Client/Worker/external.py
@@ -72,12 +72,18 @@ class RTPPLWorker_external(Thread):
                     self.s = None
                     return self.send_raw(command, _recurse, stime, why)
                 raise why
+        rval = b''
         while True:
             try:
-                rval = self.s.recv(1024)
-                if len(rval) == 0:
+                chunk = self.s.recv(1024)
+                if len(chunk) == 0:
                     self.s = None
-                    return self.send_raw(command, _recurse, stime)
+                    if len(rval) == 0:
+                        return self.send_raw(command, _recurse, stime)
+                rval += chunk
+                if len(chunk) > 0 and not rval.endswith(b'\n'):
+                    # The rest of the reply is still on its way
+                    continue
                 rval = rval.decode('ascii').strip()
                 break
             except socket.error as why:
-- 
2.43.0


From d02250d8b2322a248a4886a339d73e099256868c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:40 +0000
Subject: [PATCH 70/87] fix: do not take a reply cut short by a closed
 connection for the whole

---
 sippy/Rtp_proxy/Client/Worker/external.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sippy/Rtp_proxy/Client/Worker/external.py b/sippy/Rtp_proxy/Client/Worker/external.py
index 3f626bd..9dd367f 100644
--- a/sippy/Rtp_proxy/Client/Worker/external.py
+++ b/sippy/Rtp_proxy/Client/Worker/external.py
@@ -78,10 +78,9 @@ class RTPPLWorker_external(Thread):
                 chunk = self.s.recv(1024)
                 if len(chunk) == 0:
                     self.s = None
-                    if len(rval) == 0:
-                        return self.send_raw(command, _recurse, stime)
+                    return self.send_raw(command, _recurse, stime)
                 rval += chunk
-                if len(chunk) > 0 and not rval.endswith(b'\n'):
+                if not rval.endswith(b'\n'):
                     # The rest of the reply is still on its way
                     continue
                 rval = rval.decode('ascii').strip()
-- 
2.43.0


From fba488fed0a48377dcf9bdf10728e000115d419d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:57 +0000
Subject: [PATCH 71/87] fix: refuse relay answers without a usable port,
 survive ones that come after the session

---
 sippy/Rtp_proxy/Session/update.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sippy/Rtp_proxy/Session/update.py b/sippy/Rtp_proxy/Session/update.py
index 078841d..0e70ec7 100644
--- a/sippy/Rtp_proxy/Session/update.py
+++ b/sippy/Rtp_proxy/Session/update.py
@@ -47,8 +47,8 @@ class update_params():
         result = result.rstrip()
         t0 = result.split('&&', 1)
         t1 = t0[0].split()
-        if t1[0][0] == 'E':
-            ex = RtpProxyError(f'RTPProxy errored: {t1[0]}')
+        if len(t1) == 0 or t1[0][0] == 'E':
+            ex = RtpProxyError(f'RTPProxy errored: {result}')
             self.result_callback(None, self.rtpps, ex=ex)
             return
         ur = update_result()
@@ -84,8 +84,8 @@ class update_params():
                 subc_ress = subc_ress[len(subc.commands):]
                 if len(subc_ress) == 0:
                     break
-        ur.rtpproxy_port = int(t1[0])
-        if ur.rtpproxy_port == 0:
+        ur.rtpproxy_port = int(t1[0]) if t1[0].isdigit() else 0
+        if not 0 < ur.rtpproxy_port <= 65535:
             ex = RtpProxyError(f'RTPProxy errored: bad port: {t1[0]}')
             self.result_callback(None, self.rtpps, ex=ex)
             return None
@@ -94,8 +94,12 @@ class update_params():
             ur.rtpproxy_address = t1[1]
             if len(t1) > 2 and t1[2] == '6':
                 ur.family = 'IP6'
-        else:
+        elif self.rtpps.rtp_proxy_client is not None:
             ur.rtpproxy_address = self.rtpps.rtp_proxy_client.proxy_address
+        else:
+            ex = RtpProxyError(f'RTPProxy errored: the session has been deleted')
+            self.result_callback(None, self.rtpps, ex=ex)
+            return None
         # Old-style request to put session on hold, convert it into
         # a new-style request.
         if self.atype == 'IP4' and self.remote_ip == '0.0.0.0':
-- 
2.43.0


From 4836acb68250873f91a27427415d43c8c06ba001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:57 +0000
Subject: [PATCH 72/87] fix: refuse a call properly when no media relay is in
 service

---
 sippy/b2bua.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sippy/b2bua.py b/sippy/b2bua.py
index 2b21d6e..21ec8b9 100755
--- a/sippy/b2bua.py
+++ b/sippy/b2bua.py
@@ -56,6 +56,7 @@ from sippy.B2B.Route import B2BRoute, SRC_PROXY, SRC_WSS, DST_SIP_UA, DST_WSS_UA
 from sippy.Wss_server import Wss_server, Wss_server_opts
 from sippy.SipURL import SipURL
 from sippy.Exceptions.SdpParseError import SdpParseError
+from sippy.Exceptions.RtpProxyError import RtpProxyError
 from sippy.MultipartMixBody import MultipartMixBody
 
 from sippy.B2B.States import CCStateIdle, CCStateWaitRoute, CCStateARComplete, \
@@ -193,8 +194,15 @@ class CallController(object):
                     self.cld = re_replace(self.global_config['static_tr_in'], self.cld)
                     event.data = (self.cId, self.cli, self.cld, body, auth, self.caller_name)
                 if '_rtp_proxy_clients' in self.global_config:
-                    self.rtp_proxy_session = self.rtpps_cls(self.global_config, call_id = self.cId, \
-                      notify_tag = quote('r %s' % str(self.id)))
+                    try:
+                        self.rtp_proxy_session = self.rtpps_cls(self.global_config, call_id = self.cId, \
+                          notify_tag = quote('r %s' % str(self.id)))
+                    except RtpProxyError as ex:
+                        fevent = CCEventFail((ex.code, ex.msg), rtime = event.rtime)
+                        fevent.reason_rfc3326 = ex.getReason()
+                        self.uaA.recvEvent(fevent)
+                        self.state = CCStateDead
+                        return
                     self.rtp_proxy_session.callee.raddress = (self.remote_ip, 5060)
                 self.eTry = event
                 self.state = CCStateWaitRoute
-- 
2.43.0


From 9cc5c0270fe68583ef4fa46542fd550678805adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:57 +0000
Subject: [PATCH 73/87] fix: answer a pending update with the media error
 before hanging up

---
 sippy/UA.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sippy/UA.py b/sippy/UA.py
index ac8c3a9..68e9c8c 100644
--- a/sippy/UA.py
+++ b/sippy/UA.py
@@ -471,12 +471,14 @@ class UA(object):
             if not isinstance(ex, SdpHandlingErrors): raise ex
             if self.disconnect_ts is not None:
                 return
+            fevent = CCEventFail((ex.code, ex.msg))
+            fevent.reason_rfc3326 = ex.getReason()
             if self.connect_ts is not None and not isinstance(event, CCEventUpdate):
                 # The peer cannot be given the answer to its update
+                if isinstance(self.state, self.UasStateUpdating):
+                    self.recvEvent(fevent)
                 self.disconnect()
                 return
-            fevent = CCEventFail((ex.code, ex.msg))
-            fevent.reason_rfc3326 = ex.getReason()
             self.equeue.append(fevent)
             self.emitPendingEvents()
             if isinstance(event, CCEventUpdate):
-- 
2.43.0


From 17335fd8e81fa9086ebb87b8d53df5ef3cb5387e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:57 +0000
Subject: [PATCH 74/87] fix: do not wait for the relay when a body has nothing
 to relay, find the SDP in a multipart body, report relay errors of copy, play
 and record

---
 sippy/Rtp_proxy/Session/side.py | 40 +++++++++++++++++++++------------
 sippy/Rtp_proxy/session.py      |  8 +++----
 sippy/UaStateConnected.py       | 21 +++++++----------
 sippy/UaStateGeneric.py         | 13 +++++++++++
 sippy/UacStateIdle.py           |  5 +----
 sippy/UasStateGeneric.py        |  8 -------
 6 files changed, 52 insertions(+), 43 deletions(-)

diff --git a/sippy/Rtp_proxy/Session/side.py b/sippy/Rtp_proxy/Session/side.py
index 213dc55..f527eeb 100644
--- a/sippy/Rtp_proxy/Session/side.py
+++ b/sippy/Rtp_proxy/Session/side.py
@@ -27,6 +27,8 @@
 from functools import partial
 
 from sippy.SdpOrigin import SdpOrigin
+from sippy.SdpBody import SdpBody
+from sippy.MultipartMixBody import MultipartMixBody
 from sippy.Core.Exceptions import dump_exception
 from sippy.Core.EventDispatcher import ED2
 from sippy.Exceptions.SdpParseError import SdpParseError
@@ -37,11 +39,6 @@ from sippy.Rtp_proxy.Session.subcommand import subcommand_dtls, \
 from sippy.Rtp_proxy.Session.subcommand_ice import subcommand_ice, \
   subcommand_deice
 
-try:
-    strtypes = (str, unicode)
-except NameError:
-    strtypes = (str,)
-
 class _rtpps_side(object):
     session_exists = False
     codecs = None
@@ -118,7 +115,11 @@ class _rtpps_side(object):
         ur = up.process_rtpp_result(result)
         self.rinfo_hst.append(ur)
 
-    def __play(self, prompt_name, times, result_callback, index, result, rtpps):
+    def __play(self, prompt_name, times, result_callback, index, result, rtpps, ex = None):
+        if ex is not None:
+            if result_callback is not None:
+                result_callback(None)
+            return
         from_tag, to_tag = self.gettags(rtpps)
         command = 'P%d %s %s %s %s %s' % (times, '%s-%d' % (rtpps.call_id, index), prompt_name, self.codecs, from_tag, to_tag)
         rtpps.rtpp_seq.send_command(command, result_callback)
@@ -145,17 +146,25 @@ class _rtpps_side(object):
         command = 'S %s %s %s' % ('%s-%d' % (rtpps.call_id, index), from_tag, to_tag)
         rtpps.rtpp_seq.send_command(command, result_callback)
 
+    def _get_sdp(self, body):
+        body.parse()
+        if isinstance(body.content, MultipartMixBody):
+            for part in body.content.parts:
+                sdp_bc = self._get_sdp(part)
+                if sdp_bc is not None:
+                    return sdp_bc
+        return body.content if isinstance(body.content, SdpBody) else None
+
     def _on_sdp_change(self, rtpps, sdp_body, result_callback):
         sects = []
         try:
-            sdp_body.parse()
+            sdp_bc = self._get_sdp(sdp_body)
         except Exception as exception:
             is_spe = isinstance(exception, SdpParseError)
             if not is_spe:
                 dump_exception('can\'t parse SDP body', extra = sdp_body.content)
             raise SdpParseError(f'{exception}') from exception if not is_spe else exception
-        sdp_bc = sdp_body.content
-        if isinstance(sdp_bc, strtypes):
+        if sdp_bc is None:
             sdp_body.needs_update = False
             return sdp_body
         for i, sect in enumerate(sdp_bc.sections):
@@ -192,15 +201,14 @@ class _rtpps_side(object):
                 up.subcommands.append(subcommand_dedtls(sdp_bc, sect))
             if self.deice:
                 up.subcommands.append(subcommand_deice(sdp_bc, sect))
-            up.result_callback = partial(self._sdp_change_finish, sdp_body, sect, sects, result_callback)
+            up.result_callback = partial(self._sdp_change_finish, sdp_body, sdp_bc, sect, sects, result_callback)
             self.update(up)
         return
 
-    def _sdp_change_finish(self, sdp_body, sect, sects, result_callback, ur, rtpps, ex:Exception = None):
+    def _sdp_change_finish(self, sdp_body, sdp_bc, sect, sects, result_callback, ur, rtpps, ex:Exception = None):
         if not sdp_body.needs_update:
             return
         sect.needs_update = False
-        sdp_bc = sdp_body.content
 
         if ur == None:
             sdp_body.needs_update = False
@@ -249,14 +257,18 @@ class _rtpps_side(object):
     def _copy(self, rtpps, remote_ip, remote_port, result_callback = None, index = 0):
         if not self.session_exists:
             up = update_params()
-            up.rtpps = self
+            up.rtpps = rtpps
             up.index = index
             up.result_callback = partial(self.__copy, remote_ip, remote_port, result_callback, index)
             self.update(up)
             return
         self.__copy(remote_ip, remote_port, result_callback, index, None, rtpps)
 
-    def __copy(self, remote_ip, remote_port, result_callback, index, result, rtpps):
+    def __copy(self, remote_ip, remote_port, result_callback, index, result, rtpps, ex = None):
+        if ex is not None:
+            if result_callback is not None:
+                result_callback(None)
+            return
         from_tag, to_tag = self.gettags(rtpps)
         command = 'C %s udp:%s:%d %s %s' % ('%s-%d' % (rtpps.call_id, index), remote_ip, remote_port, from_tag, to_tag)
         rtpps.rtpp_seq.send_command(command, result_callback)
diff --git a/sippy/Rtp_proxy/session.py b/sippy/Rtp_proxy/session.py
index bee115c..05300dc 100644
--- a/sippy/Rtp_proxy/session.py
+++ b/sippy/Rtp_proxy/session.py
@@ -117,7 +117,7 @@ class Rtp_proxy_session(object):
     def copy_callee(self, remote_ip, remote_port, result_callback = None, index = 0):
         return self.callee._copy(self, remote_ip, remote_port, result_callback, index)
 
-    def start_recording(self, rname=None, result_callback=None, index=0, rflags=None, only_a=False):
+    def start_recording(self, rname=None, result_callback=None, index=0, rflags='', only_a=False):
         def make_command(side):
             t1 = self.from_tag if side == 'a' else self.to_tag
             t2 = self.to_tag if side == 'a' else self.from_tag
@@ -137,7 +137,7 @@ class Rtp_proxy_session(object):
             return
         first_stage(result='dummy', rtpps=None)
 
-    def _start_recording_a(self, make_command, next_stage, result, rtpps):
+    def _start_recording_a(self, make_command, next_stage, result, rtpps, ex=None):
         if result is None:
             return next_stage(None)
         command = make_command('a')
@@ -166,10 +166,10 @@ class Rtp_proxy_session(object):
         self.rtpp_seq.delete()
 
     def on_caller_sdp_change(self, sdp_body, result_callback):
-        self.caller._on_sdp_change(self, sdp_body, result_callback)
+        return self.caller._on_sdp_change(self, sdp_body, result_callback)
 
     def on_callee_sdp_change(self, sdp_body, result_callback):
-        self.callee._on_sdp_change(self, sdp_body, result_callback)
+        return self.callee._on_sdp_change(self, sdp_body, result_callback)
 
     def stats(self, result_callback, index = 0, *callback_parameters):
         command = 'Q %s %s %s' % ('%s-%d' % (self.call_id, index), self.from_tag, self.to_tag)
diff --git a/sippy/UaStateConnected.py b/sippy/UaStateConnected.py
index 75cfd96..450a6dd 100644
--- a/sippy/UaStateConnected.py
+++ b/sippy/UaStateConnected.py
@@ -217,17 +217,13 @@ class UaStateConnected(UaStateGeneric):
                 self.ua.equeue.append(CCEventConnect((200, 'OK', None), rtime = event.rtime, \
                   origin = event.origin))
             return None
-        if body is not None and self.ua.on_local_sdp_change is not None and body.needs_update:
-            try:
-                self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event))
-            except SdpHandlingErrors as e:
-                event = CCEventFail((e.code, e.msg), rtime = event.rtime)
-                event.reason_rfc3326 = e.getReason()
-                self.ua.equeue.append(event)
-            except Exception as e:
-                event = CCEventFail((400, 'Malformed SDP Body'), rtime = event.rtime)
-                event.setWarning(str(e))
-                self.ua.equeue.append(event)
+        try:
+            if self._delayLocalSdpUpdate(event, body):
+                return None
+        except Exception as e:
+            event = CCEventFail((400, 'Malformed SDP Body'), rtime = event.rtime)
+            event.setWarning(str(e))
+            self.ua.equeue.append(event)
             return None
         if event.max_forwards is not None:
             if event.max_forwards <= 0:
@@ -256,8 +252,7 @@ class UaStateConnected(UaStateGeneric):
             self.ua.expire_timer.cancel()
             self.ua.expire_timer = None
         code, reason, body = event.getData()
-        if body is not None and self.ua.on_local_sdp_change is not None and body.needs_update:
-            self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event))
+        if self._delayLocalSdpUpdate(event, body):
             return None
         self.ua.cancelCreditTimer() # prevent timer leak on body-less re-INVITE
         self.ua.startCreditTimer(event.rtime)
diff --git a/sippy/UaStateGeneric.py b/sippy/UaStateGeneric.py
index f0248a9..e636841 100644
--- a/sippy/UaStateGeneric.py
+++ b/sippy/UaStateGeneric.py
@@ -24,7 +24,10 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
+from functools import partial
+
 from sippy.CCEvents import CCEventDisconnect
+from sippy.Exceptions.SdpParseError import SdpHandlingErrors
 
 class UaStateGeneric(object):
     sname = 'Generic'
@@ -69,6 +72,16 @@ class UaStateGeneric(object):
         self.ua.disconnect_ts = req.rtime
         return (self.ua.UaStateDisconnected, self.ua.disc_cbs, req.rtime, self.ua.origin)
 
+    def _delayLocalSdpUpdate(self, event, body):
+        if body is None or self.ua.on_local_sdp_change is None or not body.needs_update:
+            return False
+        try:
+            body = self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event))
+        except SdpHandlingErrors as ex:
+            self.ua.delayed_local_sdp_update(event, None, ex)
+            return True
+        return body is None
+
     def cancel(self, rtime, req):
         return None
 
diff --git a/sippy/UacStateIdle.py b/sippy/UacStateIdle.py
index a091ac2..b8946fb 100644
--- a/sippy/UacStateIdle.py
+++ b/sippy/UacStateIdle.py
@@ -24,8 +24,6 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-from functools import partial
-
 from sippy.Time.Timeout import TimeoutAbsMono
 from sippy.Time.MonoTime import MonoTime
 from sippy.UaStateGeneric import UaStateGeneric
@@ -49,8 +47,7 @@ class UacStateIdle(UaStateGeneric):
             self.ua.origin = 'callee'
             cId, callingID, calledID, body, auth, callingName = event.getData()
             if body is not None:
-                if self.ua.on_local_sdp_change != None and body.needs_update:
-                    self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event))
+                if self._delayLocalSdpUpdate(event, body):
                     return None
             else:
                 self.ua.late_media = True
diff --git a/sippy/UasStateGeneric.py b/sippy/UasStateGeneric.py
index 9e6ebc3..7b27b7d 100644
--- a/sippy/UasStateGeneric.py
+++ b/sippy/UasStateGeneric.py
@@ -24,18 +24,10 @@
 # (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN ANY WAY OUT OF THE USE OF THIS
 # SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
-from functools import partial
-
 from sippy.SipContact import SipContact
 from sippy.UaStateGeneric import UaStateGeneric
 
 class UasStateGeneric(UaStateGeneric):
-    def _delayLocalSdpUpdate(self, event, body):
-        if body is not None and self.ua.on_local_sdp_change is not None and body.needs_update:
-            self.ua.on_local_sdp_change(body, partial(self.ua.delayed_local_sdp_update, event))
-            return True
-        return False
-
     def _recvEventRing(self, event, eh, contacts = None):
         scode = event.getData()
         if scode is None:
-- 
2.43.0


From d620bbcec4874de56f3ca056431b365dd39e264a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:34 +0000
Subject: [PATCH 75/87] fix: do not let a nonsensical destination port kill the
 UDP sender threads

---
 sippy/Udp_server.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sippy/Udp_server.py b/sippy/Udp_server.py
index 81a7bd9..9ef5fa7 100755
--- a/sippy/Udp_server.py
+++ b/sippy/Udp_server.py
@@ -82,6 +82,9 @@ class AsyncSender(Thread):
                         return
                     if why.errno not in (EWOULDBLOCK, ENOBUFS, EAGAIN):
                         break
+                except (OverflowError, TypeError):
+                    # Nonsensical port number
+                    break
                 sleep(0.01)
         self.userv = None
 
-- 
2.43.0


From f43da58f24ae48fce7b57048b08e7661ec577d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:34 +0000
Subject: [PATCH 76/87] fix: answer malformed requests with 400, never leave
 their transactions behind

---
 sippy/Exceptions/SipParseError.py |   2 +
 sippy/SipContact.py               |   6 ++
 sippy/SipHeader.py                |   8 +-
 sippy/SipMsg.py                   |   2 +
 sippy/SipRequest.py               |  13 ++-
 sippy/SipTransactionManager.py    | 134 +++++++++++++++++++-----------
 6 files changed, 115 insertions(+), 50 deletions(-)

diff --git a/sippy/Exceptions/SipParseError.py b/sippy/Exceptions/SipParseError.py
index 845740b..9529f34 100644
--- a/sippy/Exceptions/SipParseError.py
+++ b/sippy/Exceptions/SipParseError.py
@@ -26,6 +26,8 @@
 from .SipHandlingError import SipHandlingError
 
 class SipParseError(SipHandlingError):
+    code = 400
+    msg = 'Bad Request'
     sip_response = None
 
     def __init__(self, arg, sip_response = None):
diff --git a/sippy/SipContact.py b/sippy/SipContact.py
index 822345b..79a6f44 100644
--- a/sippy/SipContact.py
+++ b/sippy/SipContact.py
@@ -30,6 +30,7 @@ from sippy.SipConf import SipConf
 from sippy.SipAddress import SipAddress
 from sippy.SipURL import SipURL
 from sippy.ESipHeaderIgnore import ESipHeaderIgnore
+from sippy.Exceptions.SipParseError import SipParseError
 
 class SipContact(SipAddressHF):
     hf_names = ('contact', 'm')
@@ -51,6 +52,11 @@ class SipContact(SipAddressHF):
             return 'm'
         return 'Contact'
 
+    def getUrl(self):
+        if self.asterisk:
+            raise SipParseError('Contact is not an address')
+        return SipAddressHF.getUrl(self)
+
     def parse(self):
         if not self.asterisk:
             return SipAddressHF.parse(self)
diff --git a/sippy/SipHeader.py b/sippy/SipHeader.py
index b32ac8f..023df65 100644
--- a/sippy/SipHeader.py
+++ b/sippy/SipHeader.py
@@ -54,6 +54,7 @@ from sippy.SipReason import SipReason
 from sippy.SipAllow import SipAllow
 from sippy.SipSupported import SipSupported
 from sippy.ESipHeaderCSV import ESipHeaderCSV
+from sippy.Exceptions.SipParseError import SipParseError
 from sippy.SipRSeq import SipRSeq
 from sippy.SipRAck import SipRAck
 from sippy.SipWarning import SipWarning
@@ -105,7 +106,12 @@ class SipHeader(object):
 
     def getBody(self):
         if not self.body.parsed:
-            self.body.parse()
+            try:
+                self.body.parse()
+            except SipParseError:
+                raise
+            except Exception as ex:
+                raise SipParseError('Malformed %s header field' % self.body.getCanName(self.name)) from ex
         return self.body
 
     def getBCopy(self):
diff --git a/sippy/SipMsg.py b/sippy/SipMsg.py
index 20c5137..27f86cb 100644
--- a/sippy/SipMsg.py
+++ b/sippy/SipMsg.py
@@ -110,6 +110,8 @@ class SipMsg(object):
     def init_body(self):
         if self.__content_length != None:
             blen = self.__content_length.getBody().number
+            if blen < 0:
+                raise SipParseError('Negative Content-Length')
             if self.__mbody == None:
                 mblen = 0
             else:
diff --git a/sippy/SipRequest.py b/sippy/SipRequest.py
index bbf293d..981b313 100644
--- a/sippy/SipRequest.py
+++ b/sippy/SipRequest.py
@@ -47,10 +47,13 @@ class SipRequest(SipMsg):
         SipMsg.__init__(self, buf)
         if buf != None:
             try:
+                if self.ruri is None:
+                    raise SipParseError('Malformed Request-URI')
                 SipMsg.init_body(self)
             except SipParseError as e:
                 try:
-                    e.sip_response = self.genResponse(400, 'Bad Request - %s' % str(e))
+                    if self.method != 'ACK':
+                        e.sip_response = self.genResponse(400, 'Bad Request - %s' % str(e))
                 except Exception as e1:
                     print('BUG: Double exception, should not be happening:\n', str(e1))
                 raise e
@@ -92,7 +95,13 @@ class SipRequest(SipMsg):
 
     def setSL(self, startline):
         self.method, ruri, self.sipver = startline.split()
-        self.ruri = SipURL(ruri)
+        if self.sipver.upper() != 'SIP/2.0' or self.method.upper().startswith('SIP/'):
+            raise ValueError('not a SIP request: %s' % startline)
+        try:
+            self.ruri = SipURL(ruri)
+        except Exception:
+            # Reported once there are headers to build response from
+            self.ruri = None
 
     def getSL(self, local_addr = None):
         return self.method + ' ' + self.ruri.localStr(local_addr) + ' ' + self.sipver
diff --git a/sippy/SipTransactionManager.py b/sippy/SipTransactionManager.py
index 10345a7..347d266 100644
--- a/sippy/SipTransactionManager.py
+++ b/sippy/SipTransactionManager.py
@@ -279,8 +279,13 @@ class SipTransactionManager(object):
             lmsg = data_in
         self.global_config['_sip_logger'].write(f'RECEIVED message from {ra}:\n', \
           lmsg, ltime = rtime.realt)
+        bad_encoding = False
         if isinstance(data_in, bytes):
-            data = data_in.decode()
+            try:
+                data = data_in.decode()
+            except UnicodeDecodeError:
+                data = lmsg
+                bad_encoding = True
             checksum = md5(data_in).digest()
         else:
             data = data_in
@@ -296,8 +301,14 @@ class SipTransactionManager(object):
             return
         if data.startswith('SIP/2.0 '):
             try:
+                if bad_encoding:
+                    raise ValueError('message is not a valid UTF-8')
                 resp = SipResponse(data)
                 tid = resp.getTId(True, True)
+                resp.getHFBodys('cseq')
+                for hfname in ('from', 'to', 'contact', 'record-route'):
+                    if hfname in ('from', 'to') or resp.getSCode()[0] < 400:
+                        [x.getUrl() for x in resp.getHFBodys(hfname)]
             except Exception as exception:
                 dump_exception(f'can\'t parse SIP response from {ra}', extra = data)
                 self.l1rcache[checksum] = SipTMRetransmitO()
@@ -331,29 +342,21 @@ class SipTransactionManager(object):
             try:
                 req = SipRequest(data)
                 tids = req.getTIds()
+                req.getHFBody('to')
+                if bad_encoding:
+                    raise SipParseError('Invalid encoding', None if req.getMethod() == 'ACK' \
+                      else req.genResponse(400, 'Bad Request - Invalid encoding'))
             except Exception as exception:
-                if isinstance(exception, SipParseError):
-                    resp = exception.getResponse()
-                    if resp is not None:
-                        self.transmitMsg(server, resp, ra.address, checksum)
                 dump_exception(f'can\'t parse SIP request from {ra}', extra = data)
                 self.l1rcache[checksum] = SipTMRetransmitO()
+                if isinstance(exception, SipParseError) and exception.sip_response is not None:
+                    # Sender can be told about the problem
+                    resp = exception.sip_response
+                    self.setViaSource(resp, ra)
+                    self.rejectRequest(resp, checksum, server)
                 return
-            call_id = tids[0][0]
             req.rtime = rtime
-            via0 = req.getHFBody('via')
-            ahost, aport = via0.getAddr()
-            rhost, rport = ra.address
-            if ra.transport != 'wss' and self.nat_traversal and rport != aport \
-              and (check1918(ahost) or check7118(ahost)):
-                req.nated = True
-            if ahost != rhost:
-                via0.params['received'] = ra.received
-            else:
-                # Nobody but us is supposed to add it
-                via0.params.pop('received', None)
-            if 'rport' in via0.params or req.nated:
-                via0.params['rport'] = str(rport)
+            self.setViaSource(req, ra)
 
             def usable_contact():
                 return req.countHFs('contact') > 0 and req.countHFs('via') == 1
@@ -364,6 +367,8 @@ class SipTransactionManager(object):
                 except Exception as exception:
                     dump_exception(f'can\'t parse SIP request from {ra}', extra = data)
                     self.l1rcache[checksum] = SipTMRetransmitO()
+                    if req.getMethod() != 'ACK':
+                        self.rejectRequest(req.genResponse(400, 'Bad Request'), checksum, server)
                     return None
 
             if self.nat_traversal and usable_contact():
@@ -379,23 +384,49 @@ class SipTransactionManager(object):
                     curl = cbody.getUrl()
                     curl.host = ra.received
             req.setSource(ra)
-            def ex_sendResponse(r):
-                self.transmitMsg(server, r, r.getHFBody('via').getTAddr(), checksum, call_id)
             try:
                 self.incomingRequest(req, checksum, tids, server)
             except RtpProxyError as ex:
-                resp = ex.getResponse(req)
-                self.sendResponse(resp)
+                self.failRequest(req, ex.getResponse(req), checksum, server)
                 # Give RTP proxy some time to warm up
                 if monotonic() - self.init_time > 5: raise
-            except SdpParseError as ex:
-                resp = ex.getResponse(req)
-                self.sendResponse(resp)
-            except SipParseError as ex:
-                resp = ex.getResponse(req)
-                if resp is None:
-                    raise ex
-                ex_sendResponse(resp)
+            except (SdpParseError, SipParseError) as ex:
+                dump_exception(f'can\'t process SIP request from {ra}', extra = data)
+                self.failRequest(req, ex.getResponse(req), checksum, server)
+            except Exception:
+                self.failRequest(req, req.genResponse(500, 'Server Internal Error'), checksum, server)
+                raise
+
+    def setViaSource(self, msg, ra):
+        via0 = msg.getHFBody('via')
+        ahost, aport = via0.getAddr()
+        rhost, rport = ra.address
+        if ra.transport != 'wss' and self.nat_traversal and rport != aport \
+          and (check1918(ahost) or check7118(ahost)):
+            msg.nated = True
+        if ahost != rhost:
+            via0.params['received'] = ra.received
+        else:
+            # Nobody but us is supposed to add it
+            via0.params.pop('received', None)
+        if 'rport' in via0.params or msg.nated:
+            via0.params['rport'] = str(rport)
+
+    def rejectRequest(self, resp, checksum, server):
+        if resp.getHFBody('to').getTag() == None:
+            resp.getHFBody('to').genTag()
+        self.transmitMsg(server, resp, resp.getHFBody('via').getTAddr(), checksum)
+
+    def failRequest(self, req, resp, checksum, server):
+        # Processing of the request has been interrupted, do not let
+        # the transaction hang
+        for t in self.tserver.values():
+            if t.checksum == checksum:
+                if t.state in (TRYING, RINGING):
+                    self.sendResponse(resp, t)
+                return
+        if req.getMethod() != 'ACK' and checksum not in self.l1rcache:
+            self.rejectRequest(resp, checksum, server)
 
     # 1. Client transaction methods
     def newTransaction(self, msg, resp_cb = None, laddress = None, userv = None, \
@@ -413,16 +444,17 @@ class SipTransactionManager(object):
         t.fcode = None
         t.address, transport = msg.getTarget()
         if userv == None:
-            transport = str(transport)
+            transport = str(transport).lower()
+            if transport not in ('ws', 'wss') or '_wss_server' not in self.global_config:
+                # The only other transport there is
+                transport = 'udp'
             if transport == 'udp':
                 if laddress == None:
                     t.userv = self.l4r.getServer(t.address)
                 else:
                     t.userv = self.l4r.getServer(laddress, is_local = True)
-            elif transport in ('ws', 'wss'):
-                t.userv = self.global_config['_wss_server']
             else:
-                raise RuntimeError(f'BUG: newTransaction() to unsupported transport: {transport}')
+                t.userv = self.global_config['_wss_server']
         else:
             t.userv = userv
         t.data = msg.localStr(t.userv.getSIPaddr(), compact = t.compact)
@@ -555,11 +587,17 @@ class SipTransactionManager(object):
                         t.state = UACK
                         self.l1rcache[checksum] = SipTMRetransmitO()
                         t.teG = Timeout(self.timerG, 64, 1, t)
-                        if t.resp_cb != None:
-                            if t.cb_ifver == 1:
-                                t.resp_cb(msg)
-                            else:
-                                t.resp_cb(msg, t)
+                        try:
+                            if t.resp_cb != None:
+                                if t.cb_ifver == 1:
+                                    t.resp_cb(msg)
+                                else:
+                                    t.resp_cb(msg, t)
+                        except Exception:
+                            # Nobody is going to ACK it
+                            if t.ack != None:
+                                self.sendACK(t)
+                            raise
                         if t.ack != None and not t.uack:
                             self.sendACK(t)
                         return
@@ -568,13 +606,15 @@ class SipTransactionManager(object):
                         t.req_out_cb(t.ack)
                 else:
                     self.l1rcache[checksum] = SipTMRetransmitO()
-                if t.resp_cb != None:
-                    if t.cb_ifver == 1:
-                        t.resp_cb(msg)
-                    else:
-                        t.resp_cb(msg, t)
-                del self.tclient[t.tid]
-                t.cleanup()
+                try:
+                    if t.resp_cb != None:
+                        if t.cb_ifver == 1:
+                            t.resp_cb(msg)
+                        else:
+                            t.resp_cb(msg, t)
+                finally:
+                    del self.tclient[t.tid]
+                    t.cleanup()
 
     def timerA(self, t):
         #print('timerA', t)
-- 
2.43.0


From 185133c7bac9461bb7ae2e8019cc69eb1f247cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:34 +0000
Subject: [PATCH 77/87] fix: parse Authorization before the call is set up

---
 sippy/UasStateIdle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sippy/UasStateIdle.py b/sippy/UasStateIdle.py
index 9e43851..26d634b 100644
--- a/sippy/UasStateIdle.py
+++ b/sippy/UasStateIdle.py
@@ -44,6 +44,10 @@ class UasStateIdle(UaStateGeneric):
         if req.getMethod() != 'INVITE':
             #print('wrong request %s in the Trying state' % req.getMethod())
             return None
+        if req.countHFs('authorization') == 0:
+            auth = None
+        else:
+            auth = req.getHFBody('authorization').getCopy()
         self.ua.origin = 'caller'
         #print('INVITE received in the Idle state, going to the Trying state')
         self.ua.uasResp = req.genResponse(100, 'Trying', server = self.ua.local_ua)
@@ -76,10 +80,6 @@ class UasStateIdle(UaStateGeneric):
         self.ua.rUri = SipTo(address = self.ua.uasResp.getHFBody('from').getUri())
         self.ua.cId = self.ua.uasResp.getHFBody('call-id')
         self.ua.global_config['_sip_tm'].regConsumer(self.ua, str(self.ua.cId), compact = self.ua.compact_sip)
-        if req.countHFs('authorization') == 0:
-            auth = None
-        else:
-            auth = req.getHFBody('authorization').getCopy()
         body = req.getBody()
         self.ua.branch = req.getHFBody('via').getBranch()
         event = CCEventTry((self.ua.cId, self.ua.rUri.getUrl().username, req.getRURI().username, body, auth, \
-- 
2.43.0


From 9afa66cc34ebf23bc50055f2ca8a4bf48176a2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:06 +0000
Subject: [PATCH 78/87] fix: keep RTP endpoint on its target through family,
 codec and failed updates

---
 sippy/Rtp/EPoint.py | 47 ++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/sippy/Rtp/EPoint.py b/sippy/Rtp/EPoint.py
index f8479f1..3bee636 100644
--- a/sippy/Rtp/EPoint.py
+++ b/sippy/Rtp/EPoint.py
@@ -9,7 +9,7 @@ from sippy.Time.MonoTime import MonoTime
 
 from .Core.AudioChunk import AudioChunk
 from .Handlers import RTPHandlers
-from .Params import RTPParams
+from .Params import RTPParams, canonicalize_rtp_address
 from .Conf import RTPConf
 from .Singletons import acquire_rtp_server, release_rtp_server
 
@@ -20,6 +20,7 @@ class RTPEPoint():
     firstframe = True
     writer = None
     rserv = None
+    rserv_family = None
     rtp_params:RTPParams
     state_lock: Lock
     handlers: RTPHandlers
@@ -35,6 +36,7 @@ class RTPEPoint():
         self.rsess = self.make_rtp_instream(rtp_params, audio_in)
         rserv_opts = self.make_udp_server_opts(rtp_params)
         self.rserv = self.make_udp_server(rserv_opts)
+        self.rserv_family = rtp_params.rtp_family
         if self.rtp_params.rtp_target is not None:
             self.writer_setup()
 
@@ -126,12 +128,17 @@ class RTPEPoint():
         new_channel = self._bind_channel(rtp_server, rtp_laddr, palloc, preferred_port=preferred_port)
         target = rtp_params.rtp_target
         if target is not None:
-            new_channel.set_target(target[0], target[1])
+            try:
+                new_channel.set_target(target[0], target[1])
+            except Exception:
+                new_channel.close()
+                raise
         with self.state_lock:
             if self._rtp_server is None or self.rserv is not old_channel:
                 new_channel.close()
                 return
             self.rserv = new_channel
+            self.rserv_family = rtp_params.rtp_family
         old_channel.close()
 
     def writer_setup(self):
@@ -146,7 +153,9 @@ class RTPEPoint():
     def send_pkt(self, pkt):
         with self.state_lock:
             channel = self.rserv
-        assert channel is not None
+        if channel is None:
+            # Shut down while the writer was producing this one.
+            return
         try:
             channel.send_pkt(pkt)
         except RtpQueueFullError:
@@ -160,7 +169,7 @@ class RTPEPoint():
             rtime = rtime_ns / 1_000_000_000.0
         with self.state_lock:
             target = self.rtp_params.rtp_target
-            if target is not None and address != target:
+            if target is not None and canonicalize_rtp_address(address) != target:
                 if self.debug:
                     print(f"InfernRTPIngest.rtp_received: address mismatch {address=} {self.rtp_params.rtp_target=}")
                 return
@@ -169,16 +178,20 @@ class RTPEPoint():
     def update(self, rtp_params:RTPParams):
         old_writer = None
         need_new_writer = False
-        target_changed = False
         proto_changed = False
         with self.state_lock:
-            target_changed = self.rtp_params.rtp_target != rtp_params.rtp_target
-            proto_changed = self.rtp_params.rtp_proto != rtp_params.rtp_proto
+            # What counts is the socket we have, an earlier update could have
+            # failed to replace it.
+            proto_changed = self.rserv_family != rtp_params.rtp_family
+            if self.rtp_params.rtp_proto != rtp_params.rtp_proto:
+                # The old target does not belong to the new family.
+                self.rtp_params.rtp_target = None
             self.rtp_params.rtp_proto = rtp_params.rtp_proto
             self.rtp_params.rtp_target = rtp_params.rtp_target
             ptime_changed = self.rtp_params.out_ptime != rtp_params.out_ptime
             self.rtp_params.out_ptime = rtp_params.out_ptime
             self.rtp_params.out_sr = rtp_params.out_sr
+            codec_changed = self.rtp_params.codec != rtp_params.codec
             self.rtp_params.codec = rtp_params.codec
             channel = self.rserv
             if self.rtp_params.rtp_target is None:
@@ -186,7 +199,7 @@ class RTPEPoint():
                 self.writer = None
             elif self.writer is None:
                 need_new_writer = True
-            elif ptime_changed or proto_changed:
+            elif ptime_changed or proto_changed or codec_changed:
                 old_writer = self.writer
                 self.writer = None
                 need_new_writer = True
@@ -195,7 +208,7 @@ class RTPEPoint():
             old_writer.join()
         if proto_changed and channel is not None:
             self._swap_channel(channel, rtp_params)
-        elif target_changed and channel is not None and self.rtp_params.rtp_target is not None:
+        elif channel is not None and self.rtp_params.rtp_target is not None:
             target = self.rtp_params.rtp_target
             channel.set_target(target[0], target[1])
         if need_new_writer:
@@ -220,13 +233,15 @@ class RTPEPoint():
         with self.state_lock:
             writer, channel, rtp_server = self.writer, self.rserv, self._rtp_server
             self.writer, self.rserv, self._rtp_server = (None, None, None)
-        if writer is not None:
-            writer.end()
-            writer.join()
-        if channel is not None:
-            channel.close()
-        if rtp_server is not None:
-            release_rtp_server(rtp_server)
+        try:
+            if writer is not None:
+                writer.end()
+                writer.join()
+        finally:
+            if channel is not None:
+                channel.close()
+            if rtp_server is not None:
+                release_rtp_server(rtp_server)
 
     def __del__(self):
         if self.debug:
-- 
2.43.0


From 4ae82ac63662f1109be99f098253684be2abfdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:01 +0000
Subject: [PATCH 79/87] fix: do not lose, invent or misdecode audio in RTP
 streams

---
 sippy/Rtp/Codecs/G722.py  |  4 ++--
 sippy/Rtp/Ingest.py       | 49 +++++++++++++++++++++++++++++++++------
 sippy/Rtp/OutputWorker.py | 20 +++++++++-------
 3 files changed, 56 insertions(+), 17 deletions(-)

diff --git a/sippy/Rtp/Codecs/G722.py b/sippy/Rtp/Codecs/G722.py
index 63fe43f..1e3cc11 100644
--- a/sippy/Rtp/Codecs/G722.py
+++ b/sippy/Rtp/Codecs/G722.py
@@ -34,8 +34,8 @@ class G722Codec(GenCodec):
         return chunk
 
     def silence(self, nframes:int):
-        pcm16 = array('h', [0]) * self.e2d_frames(nframes)
-        return self.encode(pcm16)
+        pcm16 = array('h', [0]) * self.e2d_frames(nframes, self.srate)
+        return self.codec.encode(pcm16)
 
     def e2d_frames(self, enframes:int, out_srate:int=None):
         #assert out_srate % self.srate == 0
diff --git a/sippy/Rtp/Ingest.py b/sippy/Rtp/Ingest.py
index 347372a..889f795 100644
--- a/sippy/Rtp/Ingest.py
+++ b/sippy/Rtp/Ingest.py
@@ -16,14 +16,22 @@ class RTPInStream():
     last_output_lseq: Optional[int] = None
     codec: GenCodec
     npkts: int = 0
+    ssrc: Optional[bytes] = None
+    # Timestamp has stepped back rather than forward, see pkts_out()
+    max_ts_diff: int = 1 << 30
+    rtp_params: RTPParams
     def __init__(self, rtp_params:RTPParams, audio_in:callable):
         self.jbuf = RtpJBuf(self.jb_size)
-        self.codec = rtp_params.codec()
-        self.codec.out_srate = rtp_params.out_sr
-        self.out_chunk_sz_samples = int(rtp_params.out_sr / 10) # 0.1s
+        self.rtp_params = rtp_params
+        self.codec_setup()
         self.ring_lock = Lock()
         self.audio_in = audio_in
 
+    def codec_setup(self):
+        self.codec = self.rtp_params.codec()
+        self.codec.out_srate = self.rtp_params.out_sr
+        self.out_chunk_sz_samples = int(self.rtp_params.out_sr / 10) # 0.1s
+
     def rtp_received(self, data, address, rtime):
         #self.dprint(f"RTP.Ingest.rtp_received: len(data) = {len(data)}")
         with self.ring_lock:
@@ -33,25 +41,54 @@ class RTPInStream():
         with self.ring_lock:
             self.jbuf = RtpJBuf(self.jb_size)
             self.last_output_lseq = None
-            return
+            self.ssrc = None
+            if isinstance(self.codec, self.rtp_params.codec) and self.codec.out_srate == self.rtp_params.out_sr:
+                return
+            if len(self.out_buffer) > 0:
+                # What is left is in the old format
+                chunk = self.codec.decode(self.out_buffer)
+                chunk.rtime = self.ob_rtime
+                self.out_buffer = b''
+                self.audio_in(chunk)
+            self.codec_setup()
 
     def stream_connect(self, audio_in:callable):
         with self.ring_lock:
             self.audio_in = audio_in
 
     def pkt_proc(self, data, address, rtime):
+        if len(data) < 12 or 192 <= data[1] <= 223:
+            # Either not RTP at all, or RTCP (RFC 5761)
+            return
+        ssrc = bytes(data[8:12])
+        new_source = self.ssrc is not None and ssrc != self.ssrc
+        jbuf = RtpJBuf(self.jb_size) if new_source else self.jbuf
         try:
-            res = self.jbuf.udp_in(data, rtime)
+            res = jbuf.udp_in(data, rtime)
         except RTPParseError as e:
             self.dprint(f"RTPParseError: {e}")
             return
+        if new_source:
+            # The other side has started over, so does the numbering
+            self.pkts_out(self.jbuf.flush())
+            self.jbuf = jbuf
+            self.last_output_lseq = None
+        self.ssrc = ssrc
         self.npkts += 1
         if self.npkts == 1:
             self.dprint(f"address={address}, rtime={rtime}, len(data) = {len(data)} data={data[:40]}")
+        self.pkts_out(res)
+        if self.npkts < 10 and len(res) > 0:
+            self.dprint(f"{res=}")
+
+    def pkts_out(self, res):
         for pkt in res:
             if pkt.content.type == RTPFrameType.ERS:
                 self.dprint(f"ERS packet received {pkt.content.lseq_start=}, {pkt.content.lseq_end=} {pkt.content.ts_diff=}")
+                is_first = self.last_output_lseq is None
                 self.last_output_lseq = pkt.content.lseq_end
+                if is_first or pkt.content.ts_diff >= self.max_ts_diff:
+                    continue
                 rtp_data = self.codec.silence(pkt.content.ts_diff)
             else:
                 if self.npkts < 10:
@@ -71,8 +108,6 @@ class RTPInStream():
             self.ob_rtime += self.codec.e2t(decode_samples)
             self.out_buffer = self.out_buffer[decode_samples:]
             self.audio_in(chunk)
-        if self.npkts < 10 and len(res) > 0:
-            self.dprint(f"{res=}")
 
     def dprint(self, *args):
         if self.debug:
diff --git a/sippy/Rtp/OutputWorker.py b/sippy/Rtp/OutputWorker.py
index 502c36d..11f457c 100644
--- a/sippy/Rtp/OutputWorker.py
+++ b/sippy/Rtp/OutputWorker.py
@@ -150,16 +150,13 @@ class RTPOutputWorker():
             except queue.Empty:
                 break
             chunk_nframes = chunk.nframes
+            debug = self.debug or chunk.debug
             if chunk.samplerate != self.samplerate_out:
+                # The chunk belongs to the caller
+                chunk = AudioChunk(chunk.audio, chunk.samplerate)
                 chunk.resample(self.samplerate_out)
             if self.data_log is not None:
                 self.data_log.extend(chunk.to_bytes())
-            chunk_ebytes = self.codec.d2e_frames(chunk_nframes)
-            pad_nbytes = (-chunk_ebytes) % self._out_psize
-            if pad_nbytes != 0:
-                pad_nframes = self.codec.e2d_frames(pad_nbytes)
-                assert pad_nframes > 0
-                chunk.audio.extend(array('h', [0]) * pad_nframes)
             audio_enc = self.codec.encode(chunk)
             if len(audio_enc) > 0:
                 self._enc_buffer += audio_enc
@@ -167,11 +164,18 @@ class RTPOutputWorker():
             else:
                 self.update_frm_ctrs(prcsd_inc=chunk_nframes)
             self._stream_started = True
-            if self.debug or chunk.debug:
+            if debug:
                 print(f'{self}._proc_in: {len(self._enc_buffer)=}')
 
+        pad_nbytes = self._out_psize - len(self._enc_buffer)
+        if 0 < pad_nbytes < self._out_psize:
+            # Nothing else is queued, complete the packet with silence
+            pad_nframes = self.codec.e2d_frames(pad_nbytes)
+            assert pad_nframes > 0
+            pad = AudioChunk(array('h', [0]) * pad_nframes, self.samplerate_out)
+            self._enc_buffer += self.codec.encode(pad)
+
         if len(self._enc_buffer) >= self._out_psize:
-            assert len(self._enc_buffer) % self._out_psize == 0
             packet = self._enc_buffer[:self._out_psize]
             self._enc_buffer = self._enc_buffer[self._out_psize:]
             pkt = self._rsynth.next_pkt(self._out_psize, self._out_pt, pload=packet)
-- 
2.43.0


From 1e833b1705650b79f6115bf106c802efeaf76d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:26:32 +0000
Subject: [PATCH 80/87] fix: tel: URIs with flag parameters (npdi) raised an
 error when converted to sip:

---
 sippy/SipURL.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/SipURL.py b/sippy/SipURL.py
index cbdf49f..812010b 100644
--- a/sippy/SipURL.py
+++ b/sippy/SipURL.py
@@ -117,8 +117,8 @@ class SipURL(object):
             for part in parts[1:]:
                 # The RFC-3261 suggests the user parameter keys should
                 # be converted to lower case.
-                k, v = part.split('=')
-                self.userparams.append(k.lower() + '=' + v)
+                k, eq, v = part.partition('=')
+                self.userparams.append(k.lower() + eq + v)
 
     def parseSipURL(self, url, relaxedparser):
         ear = url.find('@') + 1
-- 
2.43.0


From 31a2cdcb6c14e25c7d5d512e000cd845b32673e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:29 +0000
Subject: [PATCH 81/87] fix: keep flags and number of workers when UDP server
 options are copied

---
 sippy/Udp_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Udp_server.py b/sippy/Udp_server.py
index 9ef5fa7..8a5921a 100755
--- a/sippy/Udp_server.py
+++ b/sippy/Udp_server.py
@@ -147,7 +147,7 @@ class Udp_server_opts(Network_server_opts):
     def __init__(self, *args, family = None, o = None):
         super().__init__(*args, o=o)
         if o != None:
-            self.family = o.family
+            self.family, self.flags, self.nworkers = o.family, o.flags, o.nworkers
             return
         if family == None:
             if self.laddress != None and self.laddress[0].startswith('['):
-- 
2.43.0


From f419d63ddb7c32de08dd18fa2e8b7efb9ebd6c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:29 +0000
Subject: [PATCH 82/87] fix: UDP receiver thread no longer dies on a socket
 error

---
 sippy/Udp_server.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sippy/Udp_server.py b/sippy/Udp_server.py
index 8a5921a..156aeeb 100755
--- a/sippy/Udp_server.py
+++ b/sippy/Udp_server.py
@@ -119,10 +119,10 @@ class AsyncReceiver(Thread):
                     break
                 if why.errno in (EINTR,):
                     continue
-                dump_exception('Udp_server[%d]: unhandled exception when receiving incoming data' % self.my_pid)
+                dump_exception('Udp_server: unhandled exception when receiving incoming data')
                 continue
             except Exception:
-                dump_exception('Udp_server[%d]: unhandled exception when receiving incoming data' % self.my_pid)
+                dump_exception('Udp_server: unhandled exception when receiving incoming data')
                 sleep(1)
                 continue
             if self.userv.uopts.family == socket.AF_INET6:
-- 
2.43.0


From a6f9e920d7240fdbe818a68fb189bb13b9cb0ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:29 +0000
Subject: [PATCH 83/87] fix: receive UDP datagrams larger than 8192 bytes whole

---
 sippy/Udp_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Udp_server.py b/sippy/Udp_server.py
index 156aeeb..c8929e7 100755
--- a/sippy/Udp_server.py
+++ b/sippy/Udp_server.py
@@ -101,7 +101,7 @@ class AsyncReceiver(Thread):
         maxemptydata = 100
         while True:
             try:
-                data, address = self.userv.skt.recvfrom(8192)
+                data, address = self.userv.skt.recvfrom(65535)
                 if not data and address == None:
                     # Ugly hack to detect socket being closed under us on Linux.
                     # The problem is that even call on non-closed socket can
-- 
2.43.0


From b7999261db2e17321b9991a53dca1c1e2c65d97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:29 +0000
Subject: [PATCH 84/87] fix: artificially delayed sends work over IPv6

---
 sippy/Udp_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/Udp_server.py b/sippy/Udp_server.py
index c8929e7..2d28cca 100755
--- a/sippy/Udp_server.py
+++ b/sippy/Udp_server.py
@@ -227,7 +227,7 @@ class Udp_server(Network_server):
         if not isinstance(address, tuple):
             raise Exception('Invalid address, not a tuple: %s' % str(address))
         addr, port = address
-        if self.uopts.family == socket.AF_INET6:
+        if self.uopts.family == socket.AF_INET6 and not delayed:
             if not addr.startswith('['):
                 raise Exception('Invalid IPv6 address: %s' % addr)
             address = (addr[1:-1], port)
-- 
2.43.0


From 777207e839c66ddec15036b5d1cafc89e74b8ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:03 +0000
Subject: [PATCH 85/87] fix: log writer thread no longer starts before it knows
 its file

---
 sippy/SipLogger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sippy/SipLogger.py b/sippy/SipLogger.py
index f850ddb..caf0955 100644
--- a/sippy/SipLogger.py
+++ b/sippy/SipLogger.py
@@ -154,8 +154,8 @@ class SipLogger(object):
             self.wi_available = Condition()
             self.wi = []
             if bend != 'syslog':
-                self.logger = AsyncLogger(app, self)
                 self.logfile = os.environ.get('SIPLOG_LOGFILE_FILE', logfile)
+                self.logger = AsyncLogger(app, self)
                 self.signal_handler = LogSignal(self, SIGUSR1, self.reopen)
             else:
                 self.logger = AsyncLoggerSyslog(app, self)
-- 
2.43.0


From 8e60fe1beae877cf0c07fd59cdf8fcadabe9cae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:03 +0000
Subject: [PATCH 86/87] fix: log records carry the time of the event

---
 sippy/SipLogger.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sippy/SipLogger.py b/sippy/SipLogger.py
index caf0955..688fcee 100644
--- a/sippy/SipLogger.py
+++ b/sippy/SipLogger.py
@@ -185,6 +185,9 @@ class SipLogger(object):
     def write_logfile(self, *args, **kwargs):
         if kwargs.get('level', SIPLOG_INFO) < self.level:
             return
+        if kwargs.get('ltime', None) == None:
+            # Time of the event, not of the moment when the writer gets to it
+            kwargs['ltime'] = time()
         discarded = False
         self.wi_available.acquire()
         if len(self.wi) > 1000:
-- 
2.43.0


From 47557b8ececaae7b0d504c26ac036d25d9713019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:03 +0000
Subject: [PATCH 87/87] fix: keep reopen requests when log records are
 discarded

---
 sippy/SipLogger.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sippy/SipLogger.py b/sippy/SipLogger.py
index 688fcee..6a46467 100644
--- a/sippy/SipLogger.py
+++ b/sippy/SipLogger.py
@@ -193,9 +193,10 @@ class SipLogger(object):
         if len(self.wi) > 1000:
             # Discard some items, as the writer doesn't seems to be able
             # to keep up pace with incoming requests
-            self.discarded += len(self.wi) - 1000
-            self.wi = self.wi[-1000:]
-            discarded = True
+            keep = [wi for wi in self.wi[:-1000] if wi[0] != 'write']
+            discarded = len(self.wi) > 1000 + len(keep)
+            self.discarded += len(self.wi) - 1000 - len(keep)
+            self.wi = keep + self.wi[-1000:]
         self.wi.append(('write', args, kwargs))
         self.wi_available.notify()
         self.wi_available.release()
-- 
2.43.0

