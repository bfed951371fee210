From 0ab136502bc2fe8feff0da2c37cadfbd0974ee73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:12 +0000
Subject: [PATCH 01/33] fix: keep room for the terminator when receiving a
 server reply

---
 src/smtpclientbase.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 9dbcdcc..c9c26e3 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -691,7 +691,8 @@ int SMTPClientBase::getRawCommandReply() {
     setSocketToNonBlocking();
 
     do {
-        ssize_t bytes_received = recv(mSock, outbuf, SERVERRESPONSE_BUFFER_LENGTH, 0);
+        // Keep one byte for the null terminator
+        ssize_t bytes_received = recv(mSock, outbuf, SERVERRESPONSE_BUFFER_LENGTH - 1, 0);
         if (bytes_received > 0) {
             receivedAtLeastOnce = true;
             outbuf[bytes_received] = '\0';  // Null-terminate the received data
-- 
2.43.0


From f419de77eda73e4c4b29008f1c29eb425ae17765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:12 +0000
Subject: [PATCH 02/33] fix: do not recurse endlessly when QUIT cannot be sent
 during cleanup

---
 src/securesmtpclientbase.cpp | 2 ++
 src/smtpclient.cpp           | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 923cbd9..34df99b 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -103,6 +103,8 @@ void SecureSMTPClientBase::setAcceptSelfSignedCert(bool pValue) {
 
 void SecureSMTPClientBase::cleanup() {
     if (getBatchMode() && mIsConnected) {
+        // A failure to send QUIT calls this method again
+        mIsConnected = false;
         sendQuitCommand();
     }
     mIsConnected = false;
diff --git a/src/smtpclient.cpp b/src/smtpclient.cpp
index 15c7594..7af6f41 100644
--- a/src/smtpclient.cpp
+++ b/src/smtpclient.cpp
@@ -46,6 +46,8 @@ SmtpClient& SmtpClient::operator=(SmtpClient &&other) noexcept {
 
 void SmtpClient::cleanup() {
     if (getBatchMode() && mIsConnected) {
+        // A failure to send QUIT calls this method again
+        mIsConnected = false;
         sendQuitCommand();
     }
     mIsConnected = false;
-- 
2.43.0


From ee505627eeb4ab1ea14477e26bdd513a0ef02f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:12 +0000
Subject: [PATCH 03/33] fix: never send in clear on a connection that
 negotiated TLS

---
 src/securesmtpclientbase.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 34df99b..c589d2c 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -157,6 +157,8 @@ void SecureSMTPClientBase::initializeSSLContext() {
 
 int SecureSMTPClientBase::startTLSNegotiation() {
     addCommunicationLogItem("<Start TLS negotiation>");
+    // An earlier unencrypted session must not make this one bypass TLS
+    setKeepUsingBaseSendCommands(false);
     initializeSSLContext();
     if (mCTX == nullptr) {
         return SSL_CLIENT_STARTTLS_INITSSLCTX_ERROR;
-- 
2.43.0


From 726d16942e5647c8eb89a8524d30618119d9313e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:12 +0000
Subject: [PATCH 04/33] fix: do not dereference missing authentication options

---
 src/smtpclientbase.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index c9c26e3..49ce552 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -760,6 +760,9 @@ void SMTPClientBase::setLastServerResponse(const char *pResponse) {
 
 int SMTPClientBase::authenticateClient() {
     if (mCredential != nullptr) {
+        if (mAuthOptions == nullptr) {
+            return CLIENT_AUTHENTICATION_METHOD_NOTSUPPORTED;
+        }
         auto recommenedAuthOption = mCredential->getRecommendedAuthOption();
         if (mAuthOptions->Plain
             && (recommenedAuthOption == RecommendedAuthenticationMethod::kImplicit
-- 
2.43.0


From 18886d3f52d8699287b0d6039784ba0670438638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:12 +0000
Subject: [PATCH 05/33] fix: close the connection when sendMail fails

---
 src/smtpclientbase.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 49ce552..2bf8fe6 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -345,6 +345,7 @@ int SMTPClientBase::sendMail(const Message &pMsg) {
     if (!mIsConnected) {
         int client_connect_ret_code = establishConnectionWithServer();
         if (client_connect_ret_code != 0) {
+            cleanup();
             return client_connect_ret_code;
         }
     }
@@ -352,16 +353,19 @@ int SMTPClientBase::sendMail(const Message &pMsg) {
 
     int set_mail_recipients_ret_code = setMailRecipients(pMsg);
     if (set_mail_recipients_ret_code != 0) {
+        cleanup();
         return set_mail_recipients_ret_code;
     }
 
     int set_mail_headers_ret_code = setMailHeaders(pMsg);
     if (set_mail_headers_ret_code != 0) {
+        cleanup();
         return set_mail_headers_ret_code;
     }
 
     int set_mail_body_ret_code = setMailBody(pMsg);
     if (set_mail_body_ret_code != 0) {
+        cleanup();
         return set_mail_body_ret_code;
     }
 
-- 
2.43.0


From 254efa883e60855f1958aa700c0c21fae123b9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:12 +0000
Subject: [PATCH 06/33] fix: report a failure to send the To and Cc headers

---
 src/smtpclientbase.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 2bf8fe6..ea3dfa2 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -928,13 +928,19 @@ int SMTPClientBase::setMailHeaders(const Message &pMsg) {
     // To
     if (pMsg.getToCount() > 0) {
         std::vector<MessageAddress*> toAddrs(pMsg.getTo(), pMsg.getTo() + pMsg.getToCount());
-        addMailHeader("To", generateHeaderAddressValues(toAddrs).c_str(), CLIENT_SENDMAIL_HEADERTOANDCC_ERROR);
+        int header_to_ret_code = addMailHeader("To", generateHeaderAddressValues(toAddrs).c_str(), CLIENT_SENDMAIL_HEADERTOANDCC_ERROR);
+        if (header_to_ret_code != 0) {
+            return header_to_ret_code;
+        }
     }
 
     // Cc
     if (pMsg.getCcCount() > 0) {
         std::vector<MessageAddress*> toCcs(pMsg.getCc(), pMsg.getCc() + pMsg.getCcCount());
-        addMailHeader("Cc", generateHeaderAddressValues(toCcs).c_str(), CLIENT_SENDMAIL_HEADERTOANDCC_ERROR);
+        int header_cc_ret_code = addMailHeader("Cc", generateHeaderAddressValues(toCcs).c_str(), CLIENT_SENDMAIL_HEADERTOANDCC_ERROR);
+        if (header_cc_ret_code != 0) {
+            return header_cc_ret_code;
+        }
     }
 
     // Subject
-- 
2.43.0


From 7bdb78f3d9c332ad5020509226f4c18d6cdcec46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:11 +0000
Subject: [PATCH 07/33] fix: stop sending recipients after one of them failed

---
 src/smtpclientbase.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index ea3dfa2..5694242 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -889,17 +889,16 @@ int SMTPClientBase::setMailRecipients(const Message &pMsg) {
 }
 
 int SMTPClientBase::addMailRecipients(jed_utils::MessageAddress **list, size_t count, const int RECIPIENT_OK) {
-    int rcpt_to_ret_code = RECIPIENT_OK;
-    std::for_each(list, list + count, [this, &rcpt_to_ret_code, &RECIPIENT_OK](MessageAddress *address) {
+    for (size_t index = 0; index < count; index++) {
             std::stringstream ss_rcpt_to;
-            ss_rcpt_to << "RCPT TO: <"s << address->getEmailAddress() << ">\r\n"s;
+            ss_rcpt_to << "RCPT TO: <"s << list[index]->getEmailAddress() << ">\r\n"s;
             addCommunicationLogItem(ss_rcpt_to.str().c_str());
             int ret_code = (*this.*sendCommandWithFeedbackPtr)(ss_rcpt_to.str().c_str(), CLIENT_SENDMAIL_RCPTTO_ERROR, CLIENT_SENDMAIL_RCPTTO_TIMEOUT);
             if (ret_code != RECIPIENT_OK) {
-            rcpt_to_ret_code = ret_code;
+                return ret_code;
             }
-            });
-    return rcpt_to_ret_code;
+    }
+    return RECIPIENT_OK;
 }
 
 int SMTPClientBase::setMailHeaders(const Message &pMsg) {
-- 
2.43.0


From 40f075d034f24107f826d8fbc22ebf6c161a0b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:11 +0000
Subject: [PATCH 08/33] fix: return the error code of a failed socket flags
 operation

---
 src/smtpclientbase.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 5694242..5ca0230 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -521,7 +521,8 @@ int SMTPClientBase::initializeSessionPOSIX() {
            host->h_addr,
            static_cast<size_t>(host->h_length));
     // Set non-blocking
-    if (int socketSetFlagsResult = setSocketToNonBlockingPOSIX() != 0) {
+    int socketSetFlagsResult = setSocketToNonBlockingPOSIX();
+    if (socketSetFlagsResult != 0) {
         return socketSetFlagsResult;
     }
     std::stringstream ss;
@@ -577,6 +578,7 @@ int SMTPClientBase::setSocketToNonBlockingPOSIX() {
     if ((arg = fcntl(mSock, F_GETFL, NULL)) < 0) {
         setLastSocketErrNo(errno);
         addCommunicationLogItem(strerror(errno));
+        return SOCKET_INIT_SESSION_FCNTL_GET_ERROR;
     }
     arg |= O_NONBLOCK;
     if (fcntl(mSock, F_SETFL, arg) < 0) {
-- 
2.43.0


From fd1ed5b5cb068cc241f613b0c20452d976768df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:11 +0000
Subject: [PATCH 09/33] fix: send the whole data and report a connection closed
 by the server

---
 src/securesmtpclientbase.cpp |  4 ++--
 src/smtpclientbase.cpp       | 24 ++++++++++++++++++++----
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index c589d2c..5651851 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -290,7 +290,7 @@ int SecureSMTPClientBase::getServerSecureIdentification() {
 }
 
 int SecureSMTPClientBase::sendCommand(const char *pCommand, int pErrorCode) {
-    if (BIO_puts(mBIO, pCommand) < 0) {
+    if (BIO_puts(mBIO, pCommand) <= 0) {
         setLastSocketErrNo(static_cast<int>(ERR_get_error()));
         cleanup();
         return pErrorCode;
@@ -303,7 +303,7 @@ int SecureSMTPClientBase::sendCommandWithFeedback(const char *pCommand, int pErr
     if (mBIO == nullptr) {
         return sendRawCommand(pCommand, pErrorCode, pTimeoutCode);
     }
-    if (BIO_puts(mBIO, pCommand) < 0) {
+    if (BIO_puts(mBIO, pCommand) <= 0) {
         setLastSocketErrNo(static_cast<int>(ERR_get_error()));
         cleanup();
         return pErrorCode;
diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 5ca0230..f80bc62 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -681,10 +681,26 @@ int SMTPClientBase::sendRawCommand(const char *pCommand, int pErrorCode) {
 #else
     size_t commandSize = strlen(pCommand);
 #endif
-    if (send(mSock, pCommand, commandSize, 0) == -1) {
-        setLastSocketErrNo(errno);
-        cleanup();
-        return pErrorCode;
+#ifdef _WIN32
+    const int SEND_FLAGS = 0;
+    using send_size_t = int;
+    using sent_size_t = int;
+#else
+    // A closed connection is reported as an error, not as a SIGPIPE signal
+    const int SEND_FLAGS = MSG_NOSIGNAL;
+    using send_size_t = size_t;
+    using sent_size_t = ssize_t;
+#endif
+    // A single call may send only a part of the data
+    send_size_t sentSize = 0;
+    while (sentSize < commandSize) {
+        sent_size_t result = send(mSock, pCommand + sentSize, commandSize - sentSize, SEND_FLAGS);
+        if (result <= 0) {
+            setLastSocketErrNo(errno);
+            cleanup();
+            return pErrorCode;
+        }
+        sentSize += static_cast<send_size_t>(result);
     }
     return 0;
 }
-- 
2.43.0


From fb0f0e9c60aef02c5f74d71ef0f9e39bfd7aa127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:11 +0000
Subject: [PATCH 10/33] fix: limit the time spent in blocking socket operations

---
 src/smtpclientbase.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index f80bc62..2469cca 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -569,6 +569,15 @@ int SMTPClientBase::initializeSessionPOSIX() {
             return SOCKET_INIT_SESSION_CONNECT_ERROR;
         }
     }
+    // A blocking operation must not wait forever for the server
+    struct timeval timeout {};
+    timeout.tv_sec = mCommandTimeOut > 0 ? mCommandTimeOut : 1;
+    if (setsockopt(mSock, SOL_SOCKET, SO_RCVTIMEO, &timeout, sizeof(timeout)) < 0
+            || setsockopt(mSock, SOL_SOCKET, SO_SNDTIMEO, &timeout, sizeof(timeout)) < 0) {
+        setLastSocketErrNo(errno);
+        addCommunicationLogItem(strerror(errno));
+        return SOCKET_INIT_SESSION_FCNTL_SET_ERROR;
+    }
     // Set to blocking mode again...
     return setSocketToBlockingPOSIX();
 }
-- 
2.43.0


From 712972896b9f73ac31dc9d1da481b2f829a16ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:11 +0000
Subject: [PATCH 11/33] fix: do not overflow the server name buffer during the
 TLS negotiation

---
 src/securesmtpclientbase.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 5651851..9b68ffd 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -170,13 +170,11 @@ int SecureSMTPClientBase::startTLSNegotiation() {
     }
 
     /* Link bio channel, SSL session, and server endpoint */
-    const int SERVERNAMEANDPORT_LENGTH = 1024;
-    char name[SERVERNAMEANDPORT_LENGTH];
-    sprintf(name, "%s:%u", getServerName(), getServerPort());
+    const std::string name = std::string(getServerName()) + ":" + std::to_string(getServerPort());
     BIO_get_ssl(mBIO, &mSSL); /* session */
     SSL_set_fd(mSSL, getSocketFileDescriptor());
     SSL_set_mode(mSSL, SSL_MODE_AUTO_RETRY); /* robustness */
-    BIO_set_conn_hostname(mBIO, name); /* prepare to connect */
+    BIO_set_conn_hostname(mBIO, name.c_str()); /* prepare to connect */
 
 #ifdef _WIN32
     /* On Windows, we need to import all the ROOT certificates to
-- 
2.43.0


From 2655318365bc0f4de6380d61d79034ad1737b474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:11 +0000
Subject: [PATCH 12/33] fix: do not ignore a failed socket mode change while
 waiting for a reply

---
 src/smtpclientbase.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 2469cca..0757e4b 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -719,7 +719,9 @@ int SMTPClientBase::getRawCommandReply() {
     bool receivedAtLeastOnce = false;
     char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
     unsigned int waitTime {0};
-    setSocketToNonBlocking();
+    if (setSocketToNonBlocking() != 0) {
+        return -1;
+    }
 
     do {
         // Keep one byte for the null terminator
@@ -736,7 +738,9 @@ int SMTPClientBase::getRawCommandReply() {
             waitTime += 1;
         }
     } while (waitTime < mCommandTimeOut);
-    setSocketToBlocking();
+    if (setSocketToBlocking() != 0) {
+        return -1;
+    }
     if (waitTime < mCommandTimeOut || receivedAtLeastOnce) {
         setLastServerResponse(fullResponse.c_str());
         addCommunicationLogItem(fullResponse.c_str(), "s");
-- 
2.43.0


From 73e46f4f55b3943296cc6b0c37c27235dc704644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:11 +0000
Subject: [PATCH 13/33] fix: do not take a server reply code of zero for a
 success

---
 src/smtpclientbase.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 0757e4b..59c1c9f 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1113,7 +1113,9 @@ int SMTPClientBase::extractReturnCode(const char *pOutput) {
     if (pOutput != nullptr && strlen(pOutput) >= 3) {
         std::string code_str { pOutput };
         try {
-            return std::stoi(code_str.substr(0, 3));
+            // 000 and negative numbers are no reply codes and must not be taken for a result of the client
+            const int code = std::stoi(code_str.substr(0, 3));
+            return code > 0 ? code : -1;
         }
         catch (std::exception const &) {
             return -1;
-- 
2.43.0


From 923bb55cd980d815b9675f14101864679096a46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:01 +0000
Subject: [PATCH 14/33] fix: check that the certificate belongs to the
 configured server

---
 src/securesmtpclientbase.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 9b68ffd..c7ed274 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -174,6 +174,13 @@ int SecureSMTPClientBase::startTLSNegotiation() {
     BIO_get_ssl(mBIO, &mSSL); /* session */
     SSL_set_fd(mSSL, getSocketFileDescriptor());
     SSL_set_mode(mSSL, SSL_MODE_AUTO_RETRY); /* robustness */
+    /* The certificate must be the one of the server we want to talk to */
+    if (X509_VERIFY_PARAM_set1_ip_asc(SSL_get0_param(mSSL), getServerName()) != 1
+            && (SSL_set1_host(mSSL, getServerName()) != 1
+                || SSL_set_tlsext_host_name(mSSL, getServerName()) != 1)) {
+        setLastSocketErrNo(static_cast<int>(ERR_get_error()));
+        return SSL_CLIENT_STARTTLS_BIO_CONNECT_ERROR;
+    }
     BIO_set_conn_hostname(mBIO, name.c_str()); /* prepare to connect */
 
 #ifdef _WIN32
-- 
2.43.0


From ae5be13799827fbb57f937df0eec08d87f4218ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:01 +0000
Subject: [PATCH 15/33] fix: do not leak the previous texts and credentials in
 the client copy assignment

---
 src/smtpclientbase.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 59c1c9f..cccb7e2 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -124,6 +124,7 @@ SMTPClientBase& SMTPClientBase::operator=(const SMTPClientBase& other) {
         // mBatchMode
         mBatchMode = other.mBatchMode;
         // mCommunicationLog
+        delete[] mCommunicationLog;
         mCommunicationLog = other.mCommunicationLog != nullptr ? new char[strlen(other.mCommunicationLog) + 1]: nullptr;
         if (mCommunicationLog != nullptr) {
             size_t communication_log_len = strlen(other.mCommunicationLog);
@@ -132,6 +133,7 @@ SMTPClientBase& SMTPClientBase::operator=(const SMTPClientBase& other) {
         }
         mCommunicationLogSize = other.mCommunicationLogSize;
         // mLastServerResponse
+        delete[] mLastServerResponse;
         mLastServerResponse = other.mLastServerResponse != nullptr ? new char[strlen(other.mLastServerResponse) + 1]: nullptr;
         if (mLastServerResponse != nullptr) {
             size_t last_server_response_len = strlen(other.mLastServerResponse);
@@ -144,6 +146,7 @@ SMTPClientBase& SMTPClientBase::operator=(const SMTPClientBase& other) {
         delete mAuthOptions;
         mAuthOptions = other.mAuthOptions != nullptr ? new ServerAuthOptions(*other.mAuthOptions) : nullptr;
         // mCredential
+        delete mCredential;
         mCredential = other.mCredential != nullptr ? new Credential(*other.mCredential) : nullptr;
         mIsConnected = false;
         mSock = 0;
-- 
2.43.0


From 18772156aca4c7d95b8b549d86f82380399ba107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:01 +0000
Subject: [PATCH 16/33] fix: record the real size of a copied communication log

---
 src/smtpclientbase.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index cccb7e2..d9d72a5 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -83,7 +83,7 @@ SMTPClientBase::SMTPClientBase(const SMTPClientBase& other)
       mPort(other.mPort),
       mBatchMode(other.mBatchMode),
       mCommunicationLog(other.mCommunicationLog != nullptr ? new char[strlen(other.mCommunicationLog) + 1]: nullptr),
-      mCommunicationLogSize(other.mCommunicationLogSize),
+      mCommunicationLogSize(other.mCommunicationLog != nullptr ? strlen(other.mCommunicationLog) + 1 : 0),
       mLastServerResponse(other.mLastServerResponse != nullptr ? new char[strlen(other.mLastServerResponse) + 1]: nullptr),
       mCommandTimeOut(other.mCommandTimeOut),
       mLastSocketErrNo(other.mLastSocketErrNo),
@@ -131,7 +131,7 @@ SMTPClientBase& SMTPClientBase::operator=(const SMTPClientBase& other) {
             strncpy(mCommunicationLog, other.mCommunicationLog, communication_log_len);
             mCommunicationLog[communication_log_len] = '\0';
         }
-        mCommunicationLogSize = other.mCommunicationLogSize;
+        mCommunicationLogSize = mCommunicationLog != nullptr ? strlen(mCommunicationLog) + 1 : 0;
         // mLastServerResponse
         delete[] mLastServerResponse;
         mLastServerResponse = other.mLastServerResponse != nullptr ? new char[strlen(other.mLastServerResponse) + 1]: nullptr;
-- 
2.43.0


From ca4789d09dea25aa1c4f38f5c700789cf28c0ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:01 +0000
Subject: [PATCH 17/33] fix: close the open connection of a client that is
 assigned to

---
 src/securesmtpclientbase.cpp | 2 ++
 src/smtpclient.cpp           | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index c7ed274..3269c31 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -50,6 +50,7 @@ SecureSMTPClientBase::SecureSMTPClientBase(const SecureSMTPClientBase& other)
 // Assignment operator
 SecureSMTPClientBase& SecureSMTPClientBase::operator=(const SecureSMTPClientBase& other) {
     if (this != &other) {
+        SecureSMTPClientBase::cleanup();
         SMTPClientBase::operator=(other);
         mBIO = nullptr;
         mCTX = nullptr;
@@ -77,6 +78,7 @@ SecureSMTPClientBase::SecureSMTPClientBase(SecureSMTPClientBase&& other) noexcep
 // Move assignement operator
 SecureSMTPClientBase& SecureSMTPClientBase::operator=(SecureSMTPClientBase&& other) noexcept {
     if (this != &other) {
+        SecureSMTPClientBase::cleanup();
         // Copy the data pointer and its length from the source object.
         mBIO = other.mBIO;
         mCTX = other.mCTX;
diff --git a/src/smtpclient.cpp b/src/smtpclient.cpp
index 7af6f41..56d238d 100644
--- a/src/smtpclient.cpp
+++ b/src/smtpclient.cpp
@@ -26,6 +26,7 @@ SmtpClient::~SmtpClient() {
 // Assignment operator
 SmtpClient& SmtpClient::operator=(const SmtpClient &other) {
     if (this != &other) {
+        SmtpClient::cleanup();
         SMTPClientBase::operator=(other);
     }
     return *this;
@@ -39,6 +40,7 @@ SmtpClient::SmtpClient(SmtpClient &&other) noexcept
 // Move assignement
 SmtpClient& SmtpClient::operator=(SmtpClient &&other) noexcept {
     if (this != &other) {
+        SmtpClient::cleanup();
         SMTPClientBase::operator=(std::move(other));
     }
     return *this;
-- 
2.43.0


From 56bf0a14589da78e13a0303dd58bb34ac4f572b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:01 +0000
Subject: [PATCH 18/33] fix: allocate the empty subject and body as arrays

---
 src/message.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/message.cpp b/src/message.cpp
index dcddbb4..c38aeb5 100644
--- a/src/message.cpp
+++ b/src/message.cpp
@@ -42,7 +42,7 @@ Message::Message(const MessageAddress &pFrom,
       mAttachments(nullptr),
       mAttachmentCount(pAttachmentsSize) {
     if (pSubject == nullptr) {
-        mSubject = new char('\0');
+        mSubject = new char[1] { '\0' };
     } else {
         size_t subject_len = strlen(pSubject);
         mSubject = new char[subject_len + 1];
@@ -51,7 +51,7 @@ Message::Message(const MessageAddress &pFrom,
     }
 
     if (pBody == nullptr) {
-        mBody = new char('\0');
+        mBody = new char[1] { '\0' };
     } else {
         size_t body_len = strlen(pBody);
         mBody = new char[body_len + 1];
-- 
2.43.0


From 8b91edcb06f2f23d60c627e3a931fbdf90378d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:01 +0000
Subject: [PATCH 19/33] fix: a message without a list has no elements in it

---
 src/message.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/message.cpp b/src/message.cpp
index c38aeb5..39584e0 100644
--- a/src/message.cpp
+++ b/src/message.cpp
@@ -32,15 +32,15 @@ Message::Message(const MessageAddress &pFrom,
         size_t pAttachmentsSize)
     : mFrom(pFrom),
       mTo(nullptr),
-      mToCount(pToCount),
+      mToCount(pTo != nullptr ? pToCount : 0),
       mCc(nullptr),
-      mCCCount(pCcCount),
+      mCCCount(pCc != nullptr ? pCcCount : 0),
       mBcc(nullptr),
-      mBCCCount(pBccCount),
+      mBCCCount(pBcc != nullptr ? pBccCount : 0),
       mSubject(nullptr),
       mBody(nullptr),
       mAttachments(nullptr),
-      mAttachmentCount(pAttachmentsSize) {
+      mAttachmentCount(pAttachments != nullptr ? pAttachmentsSize : 0) {
     if (pSubject == nullptr) {
         mSubject = new char[1] { '\0' };
     } else {
-- 
2.43.0


From e2b01f6329e4fc3edb8cb10f9c656380e58cb39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:01 +0000
Subject: [PATCH 20/33] fix: copy the sender and drop the replaced lists in the
 message assignment

---
 src/message.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/message.cpp b/src/message.cpp
index 39584e0..6a02222 100644
--- a/src/message.cpp
+++ b/src/message.cpp
@@ -184,6 +184,7 @@ Message::Message(const Message &other)
 // Copy assignment
 Message& Message::operator=(const Message &other) {
     if (this != &other) {
+        mFrom = other.mFrom;
         // mSubject
         delete[] mSubject;
         size_t subject_len = strlen(other.mSubject);
@@ -197,12 +198,13 @@ Message& Message::operator=(const Message &other) {
         strncpy(mBody, other.mBody, body_len);
         mBody[body_len] = '\0';
         // mTo and mToCount
-        if (mToCount > 0) {
+        if (mTo != nullptr) {
             for (unsigned int i = 0; i < mToCount; i++) {
                 delete mTo[i];
             }
             delete[] mTo;
         }
+        mTo = nullptr;
         if (other.mToCount > 0) {
             mTo = new MessageAddress*[other.mToCount];
             for (unsigned int i = 0; i < other.mToCount; i++) {
@@ -211,12 +213,13 @@ Message& Message::operator=(const Message &other) {
         }
         mToCount = other.mToCount;
         // mCc and mCCCount
-        if (mCCCount > 0) {
+        if (mCc != nullptr) {
             for (unsigned int i = 0; i < mCCCount; i++) {
                 delete mCc[i];
             }
             delete[] mCc;
         }
+        mCc = nullptr;
         if (other.mCCCount > 0) {
             mCc = new MessageAddress*[other.mCCCount];
             for (unsigned int i = 0; i < other.mCCCount; i++) {
@@ -225,12 +228,13 @@ Message& Message::operator=(const Message &other) {
         }
         mCCCount = other.mCCCount;
         // mBcc and mBCCCount
-        if (mBCCCount > 0) {
+        if (mBcc != nullptr) {
             for (unsigned int i = 0; i < mBCCCount; i++) {
                 delete mBcc[i];
             }
             delete[] mBcc;
         }
+        mBcc = nullptr;
         if (other.mBCCCount > 0) {
             mBcc = new MessageAddress*[other.mBCCCount];
             for (unsigned int i = 0; i < other.mBCCCount; i++) {
@@ -239,12 +243,13 @@ Message& Message::operator=(const Message &other) {
         }
         mBCCCount = other.mBCCCount;
         // Attachments and mAttachmentCount
-        if (mAttachmentCount > 0) {
+        if (mAttachments != nullptr) {
             for (unsigned int i = 0; i < mAttachmentCount; i++) {
                 delete mAttachments[i];
             }
             delete[] mAttachments;
         }
+        mAttachments = nullptr;
         if (other.mAttachmentCount > 0) {
             mAttachments = new Attachment*[other.mAttachmentCount];
             for (unsigned int i = 0; i < other.mAttachmentCount; i++) {
-- 
2.43.0


From a5e3db46e0ad1422d69a774b356d3c32ea4e249f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:01 +0000
Subject: [PATCH 21/33] fix: do not leak the previous content id of an
 attachment

---
 src/attachment.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/attachment.cpp b/src/attachment.cpp
index b4c0622..59d744b 100644
--- a/src/attachment.cpp
+++ b/src/attachment.cpp
@@ -112,9 +112,11 @@ Attachment& Attachment::operator=(Attachment&& other) noexcept {
 
 void Attachment::setContentId(const char * pContentId) {
     size_t contentid_len = strlen(pContentId);
-    mContentId = new char[contentid_len + 1];
-    strncpy(mContentId, pContentId, contentid_len);
-    mContentId[contentid_len] = '\0';
+    char *contentId = new char[contentid_len + 1];
+    strncpy(contentId, pContentId, contentid_len);
+    contentId[contentid_len] = '\0';
+    delete[] mContentId;
+    mContentId = contentId;
 }
 
 const char *Attachment::getName() const {
-- 
2.43.0


From 9541eb3f687dd38455da1425f68477da062441f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:01 +0000
Subject: [PATCH 22/33] fix: setters may be given the value they replace

---
 src/credential.cpp     | 20 ++++++++++++--------
 src/smtpclientbase.cpp | 14 +++++++++-----
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/credential.cpp b/src/credential.cpp
index 7f4169e..7f6dd11 100644
--- a/src/credential.cpp
+++ b/src/credential.cpp
@@ -127,11 +127,13 @@ void Credential::setUsername(const char *pUsername) {
         throw std::invalid_argument("Username cannot be null or empty");
     }
 
-    delete []mUsername;
+    // The new value may be the current one
     size_t username_len = strlen(pUsername);
-    mUsername = new char[username_len + 1];
-    strncpy(mUsername, pUsername, username_len);
-    mUsername[username_len] = '\0';
+    char *new_username = new char[username_len + 1];
+    strncpy(new_username, pUsername, username_len);
+    new_username[username_len] = '\0';
+    delete []mUsername;
+    mUsername = new_username;
 }
 
 void Credential::setPassword(const char *pPassword) {
@@ -139,11 +141,13 @@ void Credential::setPassword(const char *pPassword) {
         throw std::invalid_argument("Password cannot be null or empty");
     }
 
-    delete []mPassword;
+    // The new value may be the current one
     size_t password_len = strlen(pPassword);
-    mPassword = new char[password_len + 1];
-    strncpy(mPassword, pPassword, password_len);
-    mPassword[password_len] = '\0';
+    char *new_password = new char[password_len + 1];
+    strncpy(new_password, pPassword, password_len);
+    new_password[password_len] = '\0';
+    delete []mPassword;
+    mPassword = new_password;
 }
 
 void Credential::setRecommendedAuthOption(
diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index d9d72a5..d92b002 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -263,11 +263,13 @@ void SMTPClientBase::setServerName(const char *pServerName) {
     if (pServerName == nullptr || strcmp(pServerName, "") == 0  || StringUtils::trim(servername_str).empty()) {
         throw std::invalid_argument("Server name cannot be null or empty");
     }
-    delete []mServerName;
+    // The new value may be the current one
     size_t server_name_len = strlen(pServerName);
-    mServerName = new char[server_name_len + 1];
-    strncpy(mServerName, pServerName, server_name_len);
-    mServerName[server_name_len] = '\0';
+    char *new_server_name = new char[server_name_len + 1];
+    strncpy(new_server_name, pServerName, server_name_len);
+    new_server_name[server_name_len] = '\0';
+    delete []mServerName;
+    mServerName = new_server_name;
 }
 
 void SMTPClientBase::setBatchMode(bool pEnabled) {
@@ -279,8 +281,10 @@ void SMTPClientBase::setCommandTimeout(unsigned int pTimeOutInSeconds) {
 }
 
 void SMTPClientBase::setCredentials(const Credential &pCredential) {
+    // The new value may be the current one
+    auto *new_credential = new Credential(pCredential);
     delete mCredential;
-    mCredential = new Credential(pCredential);
+    mCredential = new_credential;
 }
 
 void SMTPClientBase::setKeepUsingBaseSendCommands(bool pValue) {
-- 
2.43.0


From ea099af3cf0d0c810ced67ea84d48ee998b940d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:22 +0000
Subject: [PATCH 23/33] fix: forward the recommended authentication method of
 the credentials

---
 src/cpp/smtpclient.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cpp/smtpclient.cpp b/src/cpp/smtpclient.cpp
index 1a1d80a..8dcdb53 100644
--- a/src/cpp/smtpclient.cpp
+++ b/src/cpp/smtpclient.cpp
@@ -49,7 +49,8 @@ void SmtpClient::setCommandTimeout(unsigned int pTimeOutInSeconds) {
 
 void SmtpClient::setCredentials(const Credential &pCredential) {
     jed_utils::SMTPClientBase::setCredentials(jed_utils::Credential(pCredential.getUsername().c_str(),
-                                                                    pCredential.getPassword().c_str()));
+                                                                    pCredential.getPassword().c_str(),
+                                                                    pCredential.getRecommendedAuthOption()));
     delete mCredential;
     mCredential = new Credential(pCredential);
 }
-- 
2.43.0


From 89f085a935cade2ba29731eb19131d4789c6dd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:58 +0000
Subject: [PATCH 24/33] fix: own the credentials of the C++ clients

---
 src/cpp/forcedsecuresmtpclient.cpp        | 5 ++---
 src/cpp/forcedsecuresmtpclient.hpp        | 4 +++-
 src/cpp/opportunisticsecuresmtpclient.cpp | 5 ++---
 src/cpp/opportunisticsecuresmtpclient.hpp | 4 +++-
 src/cpp/smtpclient.cpp                    | 5 ++---
 src/cpp/smtpclient.hpp                    | 4 +++-
 6 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/cpp/forcedsecuresmtpclient.cpp b/src/cpp/forcedsecuresmtpclient.cpp
index f1cc91d..4548b8c 100644
--- a/src/cpp/forcedsecuresmtpclient.cpp
+++ b/src/cpp/forcedsecuresmtpclient.cpp
@@ -28,7 +28,7 @@ std::string ForcedSecureSMTPClient::getCommunicationLog() const {
 }
 
 const Credential *ForcedSecureSMTPClient::getCredentials() const {
-    return mCredential;
+    return mCredential.get();
 }
 
 bool ForcedSecureSMTPClient::getAcceptSelfSignedCert() const {
@@ -55,8 +55,7 @@ void ForcedSecureSMTPClient::setCredentials(const Credential &pCredential) {
     jed_utils::SMTPClientBase::setCredentials(jed_utils::Credential(pCredential.getUsername().c_str(),
                                                                     pCredential.getPassword().c_str(),
                                                                     pCredential.getRecommendedAuthOption()));
-    delete mCredential;
-    mCredential = new Credential(pCredential);
+    mCredential = std::make_shared<const Credential>(pCredential);
 }
 
 void ForcedSecureSMTPClient::setAcceptSelfSignedCert(bool pValue) {
diff --git a/src/cpp/forcedsecuresmtpclient.hpp b/src/cpp/forcedsecuresmtpclient.hpp
index 949c035..a954454 100644
--- a/src/cpp/forcedsecuresmtpclient.hpp
+++ b/src/cpp/forcedsecuresmtpclient.hpp
@@ -1,6 +1,7 @@
 #ifndef CPPFORCEDSECURESMTPCLIENT_H
 #define CPPFORCEDSECURESMTPCLIENT_H
 
+#include <memory>
 #include "credential.hpp"
 #include "../forcedsecuresmtpclient.h"
 
@@ -150,7 +151,8 @@ class CPP_FORCEDSECURESMTPCLIENT_API ForcedSecureSMTPClient : private jed_utils:
     static jed_utils::ServerAuthOptions *extractAuthenticationOptions(const std::string &pEhloOutput);
 
  private:
-    Credential* mCredential = nullptr;
+    // Never modified, so that copies of the client can share it
+    std::shared_ptr<const Credential> mCredential;
 };
 }  // namespace cpp
 }  // namespace jed_utils
diff --git a/src/cpp/opportunisticsecuresmtpclient.cpp b/src/cpp/opportunisticsecuresmtpclient.cpp
index 2932cfe..5fcbe64 100644
--- a/src/cpp/opportunisticsecuresmtpclient.cpp
+++ b/src/cpp/opportunisticsecuresmtpclient.cpp
@@ -28,7 +28,7 @@ std::string OpportunisticSecureSMTPClient::getCommunicationLog() const {
 }
 
 const Credential *OpportunisticSecureSMTPClient::getCredentials() const {
-    return mCredential;
+    return mCredential.get();
 }
 
 bool OpportunisticSecureSMTPClient::getAcceptSelfSignedCert() const {
@@ -55,8 +55,7 @@ void OpportunisticSecureSMTPClient::setCredentials(const Credential &pCredential
     jed_utils::SMTPClientBase::setCredentials(jed_utils::Credential(pCredential.getUsername().c_str(),
                                                                     pCredential.getPassword().c_str(),
                                                                     pCredential.getRecommendedAuthOption()));
-    delete mCredential;
-    mCredential = new Credential(pCredential);
+    mCredential = std::make_shared<const Credential>(pCredential);
 }
 
 void OpportunisticSecureSMTPClient::setAcceptSelfSignedCert(bool pValue) {
diff --git a/src/cpp/opportunisticsecuresmtpclient.hpp b/src/cpp/opportunisticsecuresmtpclient.hpp
index 8ed476b..de08632 100644
--- a/src/cpp/opportunisticsecuresmtpclient.hpp
+++ b/src/cpp/opportunisticsecuresmtpclient.hpp
@@ -1,6 +1,7 @@
 #ifndef CPPOPPORTUNISTICSECURESMTPCLIENT_H
 #define CPPOPPORTUNISTICSECURESMTPCLIENT_H
 
+#include <memory>
 #include "credential.hpp"
 #include "../opportunisticsecuresmtpclient.h"
 
@@ -150,7 +151,8 @@ class CPP_OPPORTUNISTICSECURESMTPCLIENT_API OpportunisticSecureSMTPClient : priv
     static jed_utils::ServerAuthOptions *extractAuthenticationOptions(const std::string &pEhloOutput);
 
  private:
-    Credential* mCredential = nullptr;
+    // Never modified, so that copies of the client can share it
+    std::shared_ptr<const Credential> mCredential;
 };
 }  // namespace cpp
 }  // namespace jed_utils
diff --git a/src/cpp/smtpclient.cpp b/src/cpp/smtpclient.cpp
index 8dcdb53..69de2d8 100644
--- a/src/cpp/smtpclient.cpp
+++ b/src/cpp/smtpclient.cpp
@@ -28,7 +28,7 @@ std::string SmtpClient::getCommunicationLog() const {
 }
 
 const Credential *SmtpClient::getCredentials() const {
-    return mCredential;
+    return mCredential.get();
 }
 
 void SmtpClient::setServerName(const std::string &pServerName) {
@@ -51,8 +51,7 @@ void SmtpClient::setCredentials(const Credential &pCredential) {
     jed_utils::SMTPClientBase::setCredentials(jed_utils::Credential(pCredential.getUsername().c_str(),
                                                                     pCredential.getPassword().c_str(),
                                                                     pCredential.getRecommendedAuthOption()));
-    delete mCredential;
-    mCredential = new Credential(pCredential);
+    mCredential = std::make_shared<const Credential>(pCredential);
 }
 
 void SmtpClient::setKeepUsingBaseSendCommands(bool pValue) {
diff --git a/src/cpp/smtpclient.hpp b/src/cpp/smtpclient.hpp
index bc3a922..9df4a35 100644
--- a/src/cpp/smtpclient.hpp
+++ b/src/cpp/smtpclient.hpp
@@ -2,6 +2,7 @@
 #define CPPSMTPCLIENT
 
 #include <string>
+#include <memory>
 #include "credential.hpp"
 #include "message.hpp"
 #include "../serverauthoptions.h"
@@ -143,7 +144,8 @@ class CPP_SMTPCLIENT_API SmtpClient : private jed_utils::SmtpClient {
     static jed_utils::ServerAuthOptions *extractAuthenticationOptions(const std::string &pEhloOutput);
 
  private:
-    Credential* mCredential = nullptr;
+    // Never modified, so that copies of the client can share it
+    std::shared_ptr<const Credential> mCredential;
 };
 }  // namespace cpp
 }  // namespace jed_utils
-- 
2.43.0


From 474eccfeeca3beb7c227630c17dbd5b2d0cf2317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:58 +0000
Subject: [PATCH 25/33] fix: release the texts handed over by the base classes

---
 src/cpp/attachment.cpp                    | 6 ++++--
 src/cpp/forcedsecuresmtpclient.cpp        | 6 +++++-
 src/cpp/opportunisticsecuresmtpclient.cpp | 6 +++++-
 src/cpp/smtpclient.cpp                    | 6 +++++-
 4 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/cpp/attachment.cpp b/src/cpp/attachment.cpp
index 315116a..3b4d695 100644
--- a/src/cpp/attachment.cpp
+++ b/src/cpp/attachment.cpp
@@ -23,8 +23,10 @@ std::string Attachment::getContentId() const {
 }
 
 std::string Attachment::getBase64EncodedFile() const {
-    const char *retval = jed_utils::Attachment::getBase64EncodedFile();
-    return retval == nullptr ? "" : retval;
+    const char *encodedFile = jed_utils::Attachment::getBase64EncodedFile();
+    std::string retval { encodedFile == nullptr ? "" : encodedFile };
+    delete[] encodedFile;
+    return retval;
 }
 
 std::string Attachment::getMimeType() const {
diff --git a/src/cpp/forcedsecuresmtpclient.cpp b/src/cpp/forcedsecuresmtpclient.cpp
index 4548b8c..4e641ec 100644
--- a/src/cpp/forcedsecuresmtpclient.cpp
+++ b/src/cpp/forcedsecuresmtpclient.cpp
@@ -67,7 +67,10 @@ void ForcedSecureSMTPClient::setKeepUsingBaseSendCommands(bool pValue) {
 }
 
 std::string ForcedSecureSMTPClient::getErrorMessage(int errorCode) {
-    return jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    const char *errorMsg = jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    std::string retval { errorMsg };
+    delete[] errorMsg;
+    return retval;
 }
 
 int ForcedSecureSMTPClient::getErrorMessage_r(int errorCode,
@@ -76,6 +79,7 @@ int ForcedSecureSMTPClient::getErrorMessage_r(int errorCode,
     char *errorMsg = new char[MAXSIZE];
     int result = jed_utils::SMTPClientBase::getErrorMessage_r(errorCode, errorMsg, MAXSIZE);
     errorMessage = errorMsg;
+    delete[] errorMsg;
     return result;
 }
 
diff --git a/src/cpp/opportunisticsecuresmtpclient.cpp b/src/cpp/opportunisticsecuresmtpclient.cpp
index 5fcbe64..25c9f89 100644
--- a/src/cpp/opportunisticsecuresmtpclient.cpp
+++ b/src/cpp/opportunisticsecuresmtpclient.cpp
@@ -67,7 +67,10 @@ void OpportunisticSecureSMTPClient::setKeepUsingBaseSendCommands(bool pValue) {
 }
 
 std::string OpportunisticSecureSMTPClient::getErrorMessage(int errorCode) {
-    return jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    const char *errorMsg = jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    std::string retval { errorMsg };
+    delete[] errorMsg;
+    return retval;
 }
 
 int OpportunisticSecureSMTPClient::getErrorMessage_r(int errorCode,
@@ -76,6 +79,7 @@ int OpportunisticSecureSMTPClient::getErrorMessage_r(int errorCode,
     char *errorMsg = new char[MAXSIZE];
     int result = jed_utils::SMTPClientBase::getErrorMessage_r(errorCode, errorMsg, MAXSIZE);
     errorMessage = errorMsg;
+    delete[] errorMsg;
     return result;
 }
 
diff --git a/src/cpp/smtpclient.cpp b/src/cpp/smtpclient.cpp
index 69de2d8..fe212c3 100644
--- a/src/cpp/smtpclient.cpp
+++ b/src/cpp/smtpclient.cpp
@@ -59,7 +59,10 @@ void SmtpClient::setKeepUsingBaseSendCommands(bool pValue) {
 }
 
 std::string SmtpClient::getErrorMessage(int errorCode) {
-    return jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    const char *errorMsg = jed_utils::SMTPClientBase::getErrorMessage(errorCode);
+    std::string retval { errorMsg };
+    delete[] errorMsg;
+    return retval;
 }
 
 int SmtpClient::getErrorMessage_r(int errorCode,
@@ -68,6 +71,7 @@ int SmtpClient::getErrorMessage_r(int errorCode,
     char *errorMsg = new char[MAXSIZE];
     int result = jed_utils::SMTPClientBase::getErrorMessage_r(errorCode, errorMsg, MAXSIZE);
     errorMessage = errorMsg;
+    delete[] errorMsg;
     return result;
 }
 
-- 
2.43.0


From c192eb9d0fcf76459fa4b9e891de9aff8906b6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:22 +0000
Subject: [PATCH 26/33] fix: parse every line of the EHLO reply once when
 looking for AUTH

---
 src/smtpclientbase.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index d92b002..8d6e808 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1177,18 +1177,14 @@ ServerAuthOptions *SMTPClientBase::extractAuthenticationOptions(const char *pEhl
     }
     const std::string DELIMITER { "\r\n" };
     std::string ehlo_output { pEhloOutput };
-    size_t ehlo_character_index { 0 };
-    while ((ehlo_character_index = ehlo_output.find(DELIMITER)) != std::string::npos) {
+    while (!ehlo_output.empty() && retVal == nullptr) {
+        size_t ehlo_character_index = ehlo_output.find(DELIMITER);
         std::string line { ehlo_output.substr(0, ehlo_character_index)};
-        ServerAuthOptions *parsedAuthOptions = ParseAuthenticationOptions(line);
-        if (parsedAuthOptions) {
-            retVal = parsedAuthOptions;
+        retVal = ParseAuthenticationOptions(line);
+        if (ehlo_character_index == std::string::npos) {
             break;
         }
         ehlo_output.erase(0, ehlo_character_index + DELIMITER.length());
-        if (!ehlo_output.empty() && retVal == nullptr) {
-            retVal = ParseAuthenticationOptions(ehlo_output);
-        }
     }
     return retVal;
 }
-- 
2.43.0


From 54b38fbe52e294b4db465b80ba6e6a8222232452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:22 +0000
Subject: [PATCH 27/33] fix: recognise STARTTLS on the last line of the EHLO
 reply

---
 src/opportunisticsecuresmtpclient.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/opportunisticsecuresmtpclient.cpp b/src/opportunisticsecuresmtpclient.cpp
index aeba3d9..ada71da 100644
--- a/src/opportunisticsecuresmtpclient.cpp
+++ b/src/opportunisticsecuresmtpclient.cpp
@@ -110,5 +110,7 @@ bool OpportunisticSecureSMTPClient::isStartTLSSupported(const char *pServerRespo
     }
 
     const std::string STARTTLS_LINE_PREFIX { "250-STARTTLS" };
-    return serverResponse.find(STARTTLS_LINE_PREFIX) != std::string::npos;
+    const std::string STARTTLS_LAST_LINE_PREFIX { "250 STARTTLS" };
+    return serverResponse.find(STARTTLS_LINE_PREFIX) != std::string::npos
+        || serverResponse.find(STARTTLS_LAST_LINE_PREFIX) != std::string::npos;
 }
-- 
2.43.0


From a277c19bcf663caf00d53af0650bd9677b26da75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:22 +0000
Subject: [PATCH 28/33] fix: consider the whole EHLO reply when it arrives in
 several pieces

---
 src/securesmtpclientbase.cpp | 7 ++++---
 src/smtpclientbase.cpp       | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 3269c31..1159c64 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -289,8 +289,9 @@ int SecureSMTPClientBase::getServerSecureIdentification() {
         } else if (replyCode != EHLO_SUCCESS_CODE) {
             return replyCode;
         }
-        returnedOptions += "\n" + std::string(getLastServerResponse());
+        returnedOptions += getLastServerResponse();
     }
+    setLastServerResponse(returnedOptions.c_str());
     // Inspect the returned values for authentication options
     setAuthenticationOptions(SMTPClientBase::extractAuthenticationOptions(returnedOptions.c_str()));
     return EHLO_SUCCESS_CODE;
@@ -329,12 +330,12 @@ int SecureSMTPClientBase::getServerReply() {
     unsigned int waitTime {0};
     int bytes_received {0};
     char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
-    while ((bytes_received = BIO_read(mBIO, outbuf, SERVERRESPONSE_BUFFER_LENGTH)) <= 0 && waitTime < getCommandTimeout()) {
+    while ((bytes_received = BIO_read(mBIO, outbuf, SERVERRESPONSE_BUFFER_LENGTH - 1)) <= 0 && waitTime < getCommandTimeout()) {
         crossPlatformSleep(1);
         waitTime += 1;
     }
     if (waitTime < getCommandTimeout()) {
-        outbuf[bytes_received-1] = '\0';
+        outbuf[bytes_received] = '\0';
         setLastServerResponse(outbuf);
         addCommunicationLogItem(outbuf, "s");
         return extractReturnCode(outbuf);
diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 8d6e808..c58a1e9 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -659,8 +659,9 @@ int SMTPClientBase::sendServerIdentification() {
         } else if (replyCode != EHLO_SUCCESS_CODE) {
             return replyCode;
         }
-        returnedOptions += "\n" + std::string(getLastServerResponse());
+        returnedOptions += getLastServerResponse();
     }
+    setLastServerResponse(returnedOptions.c_str());
     // Inspect the returned values for authentication options
     setAuthenticationOptions(extractAuthenticationOptions(returnedOptions.c_str()));
     return EHLO_SUCCESS_CODE;
-- 
2.43.0


From 538fc4d7bcfed6ced4c4478c2981a919893e14bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:22 +0000
Subject: [PATCH 29/33] fix: resolve the server name with a thread safe
 function

---
 src/smtpclientbase.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index c58a1e9..e9ff857 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -516,17 +516,17 @@ int SMTPClientBase::initializeSessionPOSIX() {
         addCommunicationLogItem(strerror(errno));
         return SOCKET_INIT_SESSION_CREATION_ERROR;
     }
-    struct hostent *host = gethostbyname(getServerName());
-    if (!host || host->h_length < 0) {
+    struct addrinfo hints {};
+    hints.ai_family = AF_INET;
+    hints.ai_socktype = SOCK_STREAM;
+    struct addrinfo *host = nullptr;
+    if (getaddrinfo(getServerName(), nullptr, &hints, &host) != 0) {
         return SOCKET_INIT_SESSION_GETHOSTBYNAME_ERROR;
     }
     struct sockaddr_in saddr_in {};
-    saddr_in.sin_family = AF_INET;
+    memcpy(&saddr_in, host->ai_addr, sizeof(saddr_in));
+    freeaddrinfo(host);
     saddr_in.sin_port = htons(static_cast<u_short>(getServerPort()));
-    saddr_in.sin_addr.s_addr = 0;
-    memcpy(reinterpret_cast<char*>(&(saddr_in.sin_addr)),
-           host->h_addr,
-           static_cast<size_t>(host->h_length));
     // Set non-blocking
     int socketSetFlagsResult = setSocketToNonBlockingPOSIX();
     if (socketSetFlagsResult != 0) {
-- 
2.43.0


From 1914cac63057ccba795cf2b922ee4d0eb9652935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:22 +0000
Subject: [PATCH 30/33] fix: do not write past the descriptor set when many
 files are open

---
 src/smtpclientbase.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index e9ff857..17d0af2 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -516,6 +516,12 @@ int SMTPClientBase::initializeSessionPOSIX() {
         addCommunicationLogItem(strerror(errno));
         return SOCKET_INIT_SESSION_CREATION_ERROR;
     }
+    if (mSock >= FD_SETSIZE) {
+        // select() cannot wait for such a descriptor
+        setLastSocketErrNo(EMFILE);
+        addCommunicationLogItem(strerror(EMFILE));
+        return SOCKET_INIT_SESSION_CREATION_ERROR;
+    }
     struct addrinfo hints {};
     hints.ai_family = AF_INET;
     hints.ai_socktype = SOCK_STREAM;
-- 
2.43.0


From d93e6e4cc95f98375db9547795db959f0caa0951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:22 +0000
Subject: [PATCH 31/33] fix: line breaks in header values cannot start a new
 header or command

---
 src/smtpclientbase.cpp | 17 +++++++++--------
 src/stringutils.cpp    |  7 +++++++
 src/stringutils.h      |  6 ++++++
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 17d0af2..3ff4a9f 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -895,7 +895,7 @@ int SMTPClientBase::setMailRecipients(const Message &pMsg) {
     std::vector<std::string> mailFormats;
     // Method 1, 2 and 3
     mailFormats.push_back("MAIL FROM: <"s + pMsg.getFrom().getEmailAddress() + ">\r\n"s);
-    mailFormats.push_back("MAIL FROM: <"s + pMsg.getFrom().getDisplayName() + " " + pMsg.getFrom().getEmailAddress() + ">\r\n"s);
+    mailFormats.push_back("MAIL FROM: <"s + StringUtils::toSingleLine(pMsg.getFrom().getDisplayName()) + " " + pMsg.getFrom().getEmailAddress() + ">\r\n"s);
     mailFormats.push_back("MAIL FROM: "s + pMsg.getFrom().getEmailAddress() + "\r\n"s);
 
 
@@ -989,7 +989,7 @@ int SMTPClientBase::setMailHeaders(const Message &pMsg) {
 
     // Subject
     std::stringstream ss_header_subject;
-    ss_header_subject << "Subject: " << pMsg.getSubject() << "\r\n";
+    ss_header_subject << "Subject: " << StringUtils::toSingleLine(pMsg.getSubject()) << "\r\n";
     addCommunicationLogItem(ss_header_subject.str().c_str());
     int header_subject_ret_code = (*this.*sendCommandPtr)(ss_header_subject.str().c_str(), CLIENT_SENDMAIL_HEADERSUBJECT_ERROR);
     if (header_subject_ret_code != 0) {
@@ -1009,7 +1009,7 @@ int SMTPClientBase::setMailHeaders(const Message &pMsg) {
 
 int SMTPClientBase::addMailHeader(const char *field, const char *value, int pErrorCode) {
     std::stringstream ss_header_item;
-    ss_header_item << field << ": " << value << "\r\n";
+    ss_header_item << field << ": " << StringUtils::toSingleLine(value) << "\r\n";
     addCommunicationLogItem(ss_header_item.str().c_str());
     return (*this.*sendCommandPtr)(ss_header_item.str().c_str(), pErrorCode);
 }
@@ -1103,14 +1103,15 @@ void SMTPClientBase::addCommunicationLogItem(const char *pItem, const char *pPre
 std::string SMTPClientBase::createAttachmentsText(const std::vector<Attachment*> &pAttachments) {
     std::string retval;
     for (const auto &item : pAttachments) {
+        const std::string name = StringUtils::toSingleLine(item->getName());
         retval += "\r\n--sep\r\n";
-        retval += "Content-Type: " + std::string(item->getMimeType()) + "; file=\"" + std::string(item->getName()) + "\"\r\n";
+        retval += "Content-Type: " + std::string(item->getMimeType()) + "; file=\"" + name + "\"\r\n";
         if (item->getContentId() != nullptr && std::string(item->getContentId()).size() > 0) {
-            retval += "X-Attachment-Id: " + std::string(item->getContentId()) + "\r\n";
-            retval += "Content-ID: <" + std::string(item->getContentId()) + ">\r\n";
-            retval += "Content-Disposition: attachment; filename=\"" + std::string(item->getName()) + "\"\r\n";
+            retval += "X-Attachment-Id: " + StringUtils::toSingleLine(item->getContentId()) + "\r\n";
+            retval += "Content-ID: <" + StringUtils::toSingleLine(item->getContentId()) + ">\r\n";
+            retval += "Content-Disposition: attachment; filename=\"" + name + "\"\r\n";
         } else {
-            retval += "Content-Disposition: Inline; filename=\"" + std::string(item->getName()) + "\"\r\n";
+            retval += "Content-Disposition: Inline; filename=\"" + name + "\"\r\n";
         }
         retval += "Content-Transfer-Encoding: base64\r\n\r\n";
         const char* b64 = item->getBase64EncodedFile();
diff --git a/src/stringutils.cpp b/src/stringutils.cpp
index cbb9b86..7198fe7 100644
--- a/src/stringutils.cpp
+++ b/src/stringutils.cpp
@@ -44,3 +44,10 @@ std::string StringUtils::toUpper(const std::string &pString) {
             [](unsigned char c){ return static_cast<char>(std::toupper(c)); });
     return transformed_string;
 }
+
+std::string StringUtils::toSingleLine(const std::string &pString) {
+    std::string transformed_string { pString };
+    std::transform(pString.begin(), pString.end(), transformed_string.begin(),
+            [](char c){ return c == '\r' || c == '\n' ? ' ' : c; });
+    return transformed_string;
+}
diff --git a/src/stringutils.h b/src/stringutils.h
index 6e76974..0c0709b 100644
--- a/src/stringutils.h
+++ b/src/stringutils.h
@@ -49,6 +49,12 @@ class STRINGUTILS_API StringUtils {
      *  @param pString The string that will be processed.
      */
     static std::string toUpper(const std::string &pString);
+
+    /**
+     *  @brief  Replace the line breaks of a string by spaces and return the result.
+     *  @param pString The string that will be processed.
+     */
+    static std::string toSingleLine(const std::string &pString);
 };
 }  // namespace jed_utils
 
-- 
2.43.0


From 4beb3f798608f40c43bbb3195f23eeb48bf86303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:22 +0000
Subject: [PATCH 32/33] fix: a line of the body made of a dot must not end the
 message

---
 src/smtpclientbase.cpp |  2 +-
 src/stringutils.cpp    | 13 +++++++++++++
 src/stringutils.h      |  7 +++++++
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/smtpclientbase.cpp b/src/smtpclientbase.cpp
index 3ff4a9f..2d33d8e 100644
--- a/src/smtpclientbase.cpp
+++ b/src/smtpclientbase.cpp
@@ -1017,7 +1017,7 @@ int SMTPClientBase::addMailHeader(const char *field, const char *value, int pErr
 int SMTPClientBase::setMailBody(const Message &pMsg) {
     // Body part
     std::ostringstream body_ss;
-    body_ss << "--sep\r\nContent-Type: " << pMsg.getMimeType() << "; charset=UTF-8\r\n\r\n" << pMsg.getBody() << "\r\n";
+    body_ss << "--sep\r\nContent-Type: " << pMsg.getMimeType() << "; charset=UTF-8\r\n\r\n" << StringUtils::escapeLeadingDots(pMsg.getBody()) << "\r\n";
     std::string body_real = body_ss.str();
     addCommunicationLogItem(body_real.c_str());
 
diff --git a/src/stringutils.cpp b/src/stringutils.cpp
index 7198fe7..551f4c3 100644
--- a/src/stringutils.cpp
+++ b/src/stringutils.cpp
@@ -51,3 +51,16 @@ std::string StringUtils::toSingleLine(const std::string &pString) {
             [](char c){ return c == '\r' || c == '\n' ? ' ' : c; });
     return transformed_string;
 }
+
+std::string StringUtils::escapeLeadingDots(const std::string &pString) {
+    std::string escaped_string;
+    bool start_of_line = true;
+    for (const char c : pString) {
+        if (start_of_line && c == '.') {
+            escaped_string += '.';
+        }
+        escaped_string += c;
+        start_of_line = c == '\n';
+    }
+    return escaped_string;
+}
diff --git a/src/stringutils.h b/src/stringutils.h
index 0c0709b..c62fc8a 100644
--- a/src/stringutils.h
+++ b/src/stringutils.h
@@ -55,6 +55,13 @@ class STRINGUTILS_API StringUtils {
      *  @param pString The string that will be processed.
      */
     static std::string toSingleLine(const std::string &pString);
+
+    /**
+     *  @brief  Double the dots found at the beginning of the lines of a string
+     *  (RFC 5321 section 4.5.2) and return the result.
+     *  @param pString The string that will be processed.
+     */
+    static std::string escapeLeadingDots(const std::string &pString);
 };
 }  // namespace jed_utils
 
-- 
2.43.0


From 5bc145b2b5404eeec91407f5d62618be66abbb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:29 +0000
Subject: [PATCH 33/33] fix: read the EHLO reply of the opportunistic client
 from the socket before TLS is up

---
 src/securesmtpclientbase.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/securesmtpclientbase.cpp b/src/securesmtpclientbase.cpp
index 1159c64..22c4ef6 100644
--- a/src/securesmtpclientbase.cpp
+++ b/src/securesmtpclientbase.cpp
@@ -327,6 +327,10 @@ int SecureSMTPClientBase::sendCommandWithFeedback(const char *pCommand, int pErr
 }
 
 int SecureSMTPClientBase::getServerReply() {
+    // Check if we are in the TLS mode of before it
+    if (mBIO == nullptr) {
+        return getRawCommandReply();
+    }
     unsigned int waitTime {0};
     int bytes_received {0};
     char outbuf[SERVERRESPONSE_BUFFER_LENGTH];
-- 
2.43.0

