#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit titles, statements, anchors)."""
import json, os
B='src/smtpclientbase.cpp'; S='src/smtpclient.cpp'; X='src/securesmtpclientbase.cpp'
O='src/opportunisticsecuresmtpclient.cpp'; F='src/forcedsecuresmtpclient.cpp'
M='src/message.cpp'; A='src/attachment.cpp'; C='src/credential.cpp'; MA='src/messageaddress.cpp'; E='src/errorresolver.cpp'
CPP=['src/cpp/smtpclient.cpp','src/cpp/opportunisticsecuresmtpclient.cpp','src/cpp/forcedsecuresmtpclient.cpp']
CPPV=['src/cpp/attachment.cpp','src/cpp/credential.cpp','src/cpp/message.cpp','src/cpp/htmlmessage.cpp','src/cpp/plaintextmessage.cpp','src/cpp/messageaddress.cpp']
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
            mechanism=[dict(name=a,where=b) for a,b in mech],
            observe_at=list(observe),hook_needed=None)))
NONET="The unit tests never open a connection: no sendMail call, server reply or I/O failure is exercised at all."
HIST="every history of public operations (construct, setters, sendMail, copy, move, assign, destroy), every server reply and every failure of a system/OpenSSL call"

prop('C01','Secure clients send credentials only over verified TLS',
 "For the opportunistic and forced-TLS clients (both API flavours), bytes derived from the configured username or password are written only to a TLS session whose handshake completed and whose certificate check passed; they are never written to the plain socket. This holds in every history of calls in which the caller does not itself request plaintext with setKeepUsingBaseSendCommands.",
 ['histories','inputs','fault_sequences'],HIST,NONET,[B,X,O,F],
 [('authenticateClient is reached only after startTLSNegotiation returned 0',O+' / '+F+' establishConnectionWithServer'),('send-command dispatch picks TLS or raw sending',B+' sendCommandPtr, setKeepUsingBaseSendCommands')],
 [('mKeepUsingBaseSendCommands','selects raw sending even in secure clients','src/smtpclientbase.h'),('mBIO','TLS channel','src/securesmtpclientbase.h')],
 ['send(2), BIO_puts/BIO_write/SSL_write calls'])
prop('C02','TLS sessions are used only after the certificate was accepted',
 "No SMTP command, credential or message byte is written to a TLS session before its handshake succeeded, a peer certificate was presented and chain verification returned OK; a depth-zero self-signed certificate is accepted only when setAcceptSelfSignedCert(true) was set. Any other outcome makes sendMail fail.",
 ['inputs','histories','fault_sequences'],"every result of the handshake and of certificate verification, for every configuration and history",NONET,[X,O,F],
 [('handshake, peer-certificate and verify-result checks before returning success',X+' startTLSNegotiation'),('callers stop on a non-zero negotiation result',O+' / '+F+' establishConnectionWithServer')],
 [('mAcceptSelfSignedCert','opt-in for self-signed certificates','src/securesmtpclientbase.h')],['BIO_puts/BIO_write after SSL_get_verify_result'])
prop('C03','After TLS starts nothing goes out in clear on that connection',
 "Once a TLS negotiation has been started on a connection, the client writes nothing more to that connection outside the TLS session, whatever fails afterwards and whatever earlier sessions on the same client object did. For the forced-TLS client this means nothing at all is ever written in clear.",
 ['histories','fault_sequences'],HIST,NONET,[B,X,O,F],
 [('sendCommand/sendCommandWithFeedback overrides write to the BIO',X),('dispatch flag reset when a TLS session is established',X+' startTLSNegotiation')],
 [('mBIO','non-null while a TLS session exists','src/securesmtpclientbase.h')],['send(2) on a socket attached to an SSL object'])
prop('C04','An advertised STARTTLS is never silently ignored',
 "If the server's EHLO reply, however it is split over reads, advertises STARTTLS, the opportunistic client's next command is STARTTLS, and mail is only sent over the resulting verified TLS session. A refused or failed upgrade makes sendMail fail; the client continues in clear only after having established that the complete EHLO reply does not advertise STARTTLS.",
 ['inputs','histories','fault_sequences'],"every EHLO reply and fragmentation of it, every reply to STARTTLS, every TLS failure",
 "isStartTLSSupported is unit-tested on single strings; the decision taken by the connection code, and replies split across reads, are not reached.",[O,B,X],
 [('STARTTLS lookup over the accumulated EHLO reply, then upgrade or error',O+' establishConnectionWithServer'),('EHLO reply accumulation',B+' sendServerIdentification')],
 [('mLastServerResponse','reply text examined for STARTTLS','src/smtpclientbase.h')],['first command sent after EHLO'])
prop('C05','The password never reaches the communication log or the console',
 "The password (token) given in the credentials, in clear or encoded form, is never written to the communication log, to standard output or error, or to any returned error message.",
 ['inputs','histories'],HIST+"; every authentication mechanism",NONET+" No test looks at the log of an authenticated session.",[B,X,O,F],
 [('masked log entries for AUTH exchanges',B+' authenticateWithMethodPlain/Login/XOauth2')],
 [('mCommunicationLog','text returned by getCommunicationLog','src/smtpclientbase.h')],['getCommunicationLog(), std::cerr, stderr'])
prop('C06','sendMail returns 0 only for a mail the server accepted',
 "sendMail returns 0 only if, during that call, the server answered 250 to MAIL FROM, 250 to every RCPT TO, 354 to DATA and 250 to the end-of-data marker.",
 ['inputs','histories','fault_sequences'],HIST,NONET,[B],
 [('every step compares the reply code with the expected status and returns early',B+' setMailRecipients, addMailRecipients, setMailHeaders, setMailBody, sendMail')],(),['return value of sendMail versus replies received'])
prop('C07','SMTP commands are issued in protocol order, each only after the last succeeded',
 "On every connection the client issues, in this order: (greeting 220 received) EHLO, [STARTTLS, EHLO over TLS], [AUTH], MAIL, RCPT..., DATA, content, end-of-data, and QUIT last; each command is sent only after the previous step got its success reply. The only permitted deviations are retrying MAIL after a 501 and going to QUIT/close from anywhere.",
 ['inputs','histories','fault_sequences'],HIST,NONET,[B,S,O,F,X],
 [('sequencing of steps with early returns',B+' sendMail; establishConnectionWithServer of each client')],[('mIsConnected','session ready for MAIL','src/smtpclientbase.h')],['sequence of commands written to the connection'])
prop('C08','Every To, Cc and Bcc recipient is put in the envelope',
 "Before DATA is sent, RCPT TO has been issued exactly once for each address of the To, Cc and Bcc lists of the message, and for no other address; MAIL FROM carries the message's From address.",
 ['inputs'],"every message: any number of To, Cc and Bcc recipients",NONET,[B,M],
 [('loop over the three recipient lists',B+' setMailRecipients, addMailRecipients'),('recipient arrays copied by the message constructor',M)],(),['RCPT TO commands before DATA'])
prop('C09','Bcc recipients never appear in the transmitted message',
 "No byte of a Bcc recipient's address or display name is written to the connection between the DATA command and the end-of-data marker.",
 ['inputs'],"every message with Bcc recipients, every client class",NONET,[B],
 [('only From, To and Cc are used for header lines',B+' setMailHeaders')],(),['content written after DATA'])
prop('C10','Configured credentials are used before any mail is submitted',
 "When credentials are configured, MAIL FROM is sent on a new connection only after the server replied 235 to an AUTH exchange on that connection carrying exactly those credentials; the only exception is the opportunistic client on a server that does not offer STARTTLS, where credentials are withheld.",
 ['histories','inputs','fault_sequences'],HIST,NONET,[B,S,O,F],
 [('authenticateClient result compared with 235',S+' / '+O+' / '+F+' establishConnectionWithServer'),('credential encodings',B+' authenticateWithMethod*')],[('mCredential','configured credentials','src/smtpclientbase.h')],['AUTH exchange before MAIL FROM'])
prop('C11','The AUTH mechanism used is one both advertised and allowed',
 "An AUTH command names a mechanism which the server's latest EHLO reply on that connection advertised (over TLS for the secure clients) and which is the method recommended in the credentials, or any mechanism if none is recommended. If there is no such mechanism sendMail fails with the 'authentication method not supported' code.",
 ['inputs','histories'],"every EHLO reply and every recommended method, in every history",
 "extractAuthenticationOptions is tested on sample strings only; mechanism selection is never executed.",[B]+CPP,
 [('mechanism selection by advertised flag and recommended option',B+' authenticateClient'),('EHLO AUTH line parsing',B+' extractAuthenticationOptions'),('forwarding of the recommended option by the C++ facade',CPP[0]+' setCredentials')],
 [('mAuthOptions','mechanisms advertised','src/smtpclientbase.h')],['AUTH command'])
prop('C12','No failed network or TLS operation is swallowed',
 "If any socket, name-resolution, connect, send, receive or TLS call made while delivering a message fails or times out, that sendMail call returns a non-zero code. (Failures while saying QUIT during teardown are exempt.)",
 ['fault_sequences','histories'],"every point at which an external call can fail, in every history",NONET,[B,X,S,O,F],
 [('result checks and early returns after each call',B+' / '+X)],(),['return value of sendMail'])
prop('C13','The error code returned names the step that failed',
 "When sendMail fails because an operation failed or timed out locally, the negative code returned is one declared for that step (e.g. a failed RCPT TO write never yields the MAIL FROM or DATA code; a missing reply yields the timeout code of its step and not the code of a write error, the two authentication codes being interchangeable); when it fails because of a server reply, the value returned is that reply's code or the step's own code.",
 ['fault_sequences','inputs'],"every failure point and every server reply",NONET,[B,X,O,F,'src/smtpclienterrors.h','src/socketerrors.h','src/sslerrors.h'],
 [('error/timeout code arguments passed at each call site',B+' / '+X+' / '+O)],(),['return value of sendMail'])
prop('C14','Sockets and TLS objects are released exactly once',
 "Every socket descriptor, SSL context and BIO created by a client is released exactly once: by the end of a failed or non-batch sendMail, or by destruction, reassignment or teardown of the client. No released descriptor or TLS object is used again.",
 ['histories','fault_sequences'],HIST,NONET,[B,S,X],
 [('cleanup()',S+' / '+X),('destructors call cleanup',S+' / '+X)],[('mSock, mBIO, mCTX, mSSL','connection resources','src/smtpclientbase.h, src/securesmtpclientbase.h')],['close, SSL_CTX_free, BIO_free_all calls'])
prop('C15','A failed sendMail leaves no stale connection behind',
 "After sendMail returned an error the client is disconnected: the next sendMail opens a new connection and restarts the dialogue from the greeting, using nothing (socket, TLS session, authentication, advertised options, half-finished transaction) of the failed one.",
 ['histories','fault_sequences'],HIST,NONET,[B,S,X,O,F],
 [('cleanup on every error return of sendMail',B+' sendMail')],[('mIsConnected','connection considered usable','src/smtpclientbase.h')],['commands of the next sendMail'])
prop('C16','Tearing down a connection terminates and says QUIT at most once',
 "Tearing down a connection always terminates, even when the connection is already broken; QUIT is sent at most once per connection, and nothing is sent after QUIT.",
 ['fault_sequences','histories'],HIST,NONET,[B,S,X],
 [('connected flag cleared before teardown I/O',S+' / '+X+' cleanup'),('QUIT sent by setMailBody outside batch mode',B)],[('mIsConnected','guards QUIT in cleanup','src/smtpclientbase.h')],['QUIT writes, recursion of teardown'])
prop('C17','Batch mode keeps one session; otherwise each mail ends with QUIT and close',
 "With batch mode on, a successful sendMail leaves the connection open and the next sendMail reuses it without a new connect, EHLO or AUTH. With batch mode off, a successful sendMail has sent QUIT and closed the connection before returning.",
 ['histories','configurations'],HIST,NONET,[B,S,X],
 [('batch-mode tests in sendMail/setMailBody/cleanup',B)],[('mBatchMode, mIsConnected','session reuse','src/smtpclientbase.h')],['connect/QUIT/close per sendMail'])
prop('C18','Value objects own their heap memory exactly once',
 "For Attachment, MessageAddress, Credential, Message, ErrorResolver (and the C++ flavours), in every sequence of construction, copy, move, assignment (including self-assignment), setter calls and destruction, every heap block is freed exactly once, with the matching form of delete, is never used after being freed, and none is leaked.",
 ['histories','inputs'],"every sequence of special members and setters, all content lengths and list sizes including 0",
 "The tests construct and copy a few objects without a leak or memory checker; sizes such as empty lists in assignments are not combined.",[M,A,C,MA,E]+CPPV,
 [('special members with deep copies',M+' / '+A+' / '+C+' / '+MA+' / '+E)],(),['new/delete pairs'])
prop('C19','Client objects own their heap memory exactly once',
 "For the three client classes (both API flavours), in every history of setters, sendMail calls, copies, moves, assignments and destruction, every heap block is freed exactly once with the matching form of delete, is never used after being freed, and none is leaked; this includes every static helper that returns text to the caller through the C++ flavour.",
 ['histories','fault_sequences'],HIST,"Tests copy and move freshly constructed clients only, without a memory checker.",[B,X]+CPP,
 [('special members and setters of the client hierarchy',B+' / '+X),('credential copies in the facade',CPP[0])],(),['new/delete pairs'])
prop('C20','Copies are complete and independent',
 "After copy construction or copy assignment, every public getter of the copy returns what the original's getter returned (for a client: its configuration), and later changes to or destruction of either object do not affect the other.",
 ['histories','inputs'],"all objects reachable through the public API, including assignment over an object with a different content and empty or longer lists",
 "Tests compare some getters for a few sample objects.",[M,A,C,MA,E,B,X]+CPP+CPPV,
 [('copy constructors and copy assignment operators',M+' / '+A+' / '+C+' / '+MA+' / '+B)],(),['public getters'])
prop('C21','Moves transfer everything and leave a safely reusable source',
 "After move construction or move assignment, every public getter of the target returns what the source's getter returned before; the source can afterwards be destroyed or assigned to safely, and no longer refers to anything the target owns.",
 ['histories','inputs'],"all objects reachable through the public API","Tests move a few sample objects.",[M,A,C,MA,E,B,X]+CPP+CPPV,
 [('move constructors and move assignment operators',M+' / '+A+' / '+C+' / '+MA+' / '+B)],(),['public getters'])
prop('C22','Two client objects never share a live connection',
 "Copying a client gives a disconnected client that opens its own connection; moving a client hands the connection over and leaves the source disconnected; assigning over a connected client closes the connection it had. At no time do two client objects hold the same socket or TLS session.",
 ['histories'],HIST,"Tests copy and move only clients that never connected.",[B,X,S,O,F],
 [('copy operations reset connection state; move operations clear the source',B+' / '+X)],[('mSock, mBIO, mIsConnected','connection','src/smtpclientbase.h')],['sockets used by each object'])
prop('C23','Rejected arguments leave the object untouched',
 "A constructor or setter that rejects its argument (throws) does so before modifying anything: the object keeps its previous values, nothing is leaked, and a null or blank server name, null or blank user name, null or empty password, blank or malformed e-mail address, blank file name and empty recipient list (C++ flavour) are always rejected.",
 ['inputs'],"every argument value","Tests check that sample invalid values throw, not the state of the object afterwards.",[B,C,MA,A,'src/cpp/message.cpp'],
 [('validation at the top of constructors and setters',C+' / '+B+' / '+MA+' / '+A)],(),['exception and getters afterwards'])
prop('C24','Setters accept values obtained from the same object',
 "Passing a setter (or an assignment) a value obtained from the same object's getters behaves as passing an equal independent value: no freed memory is read.",
 ['inputs','histories'],"every setter of every public class, every content","No test passes an object's own value back to it.",[B,C,A]+CPP,
 [('new buffer filled before the old one is freed',B+' setServerName, setCredentials; '+C+' setUsername, setPassword; '+A+' setContentId')],(),['reads through the argument after delete'])
prop('C25','Server data and configuration cannot overflow fixed-size buffers',
 "Whatever amount of data the server sends and however long the configured names are, no write goes outside a fixed-size buffer, and every buffer handed to a string function is terminated inside its bounds.",
 ['inputs'],"every reply length returned by recv/BIO_read, every server name length, every descriptor value",NONET,[B,X,F],
 [('receive lengths versus buffer sizes',B+' checkServerGreetings, getRawCommandReply; '+X+' getServerReply; '+F+' checkServerGreetings'),('server name formatting',X+' startTLSNegotiation')],(),['indexes into SERVERRESPONSE_BUFFER_LENGTH buffers'])
prop('C26','Heap string buffers are large enough and terminated',
 "Every heap-allocated character buffer is big enough for what is copied or appended to it, for every content length (including a growing communication log), and is null-terminated when it is read as a string or returned to the caller.",
 ['inputs','histories'],"every string length, every number of log entries","Tests use short sample strings without a memory checker; the log growth path never runs.",[B,A,C,MA,M,E],
 [('strlen+1 allocations, bounded copies, explicit terminators',B+' addCommunicationLogItem, setLastServerResponse; constructors/setters elsewhere')],(),['writes to and reads of heap buffers'])
prop('C27','No server reply can crash the client',
 "For every sequence of server replies (missing AUTH line, empty, short or non-numeric replies, closed connection) sendMail never dereferences a null or invalid pointer and never lets an exception escape.",
 ['inputs','histories','fault_sequences'],HIST,NONET,[B,X,O,F],
 [('null checks and exception handling',B+' authenticateClient, extractReturnCode; '+O+' isStartTLSSupported')],[('mAuthOptions, mLastServerResponse','may be null','src/smtpclientbase.h')],['dereferences and exceptions'])
prop('C28','Every error code has its own message',
 "All declared error codes are distinct, and each is translated to its own non-empty message, different from the fallback text; any other code yields the fallback text. Every public way of asking for the text of a code (ErrorResolver and the clients' getErrorMessage) gives that same text.",
 ['inputs','configurations'],"every declared error code constant and every other integer","Each message has a hand-written test; a constant added, renumbered or left out of the resolver has none.",[E,'src/smtpclienterrors.h','src/socketerrors.h','src/sslerrors.h'],
 [('switch in the resolver constructor',E)],(),['getErrorMessage()'])
prop('C29','getErrorMessage_r stays in bounds and reports truncation',
 "getErrorMessage_r never writes outside the given buffer, returns -1 without writing for a null buffer or zero size, returns 0 with the complete terminated message if it fits, and otherwise returns the number of characters copied (size minus one) of a terminated prefix.",
 ['inputs'],"every error code and every buffer size","Tests use a few sizes.",[B],
 [('size comparison and bounded copy',B+' getErrorMessage_r')],(),['return value and buffer'])
prop('C30','The C++ flavour forwards everything faithfully',
 "Each method of the C++ flavour has the effect of the corresponding base method with the same values: setters forward every attribute, getters return the base value, and converting a C++ message to the base message preserves the From address, the To, Cc and Bcc lists, subject, body, MIME type and attachments (file name, name, content id).",
 ['inputs','configurations'],"every value of every forwarded attribute, all three facades","Tests check single getters on sample values; credentials options forwarded to the sending code are not observable in them.",CPP+CPPV,
 [('thin forwarding methods and conversion operators','src/cpp/*.cpp')],(),['base-level getters and commands sent'])
prop('C31','Distinct client objects do not interfere through shared state',
 "The library keeps no mutable global or static state of its own and calls no C library function that uses hidden shared state, so using two distinct client objects from two threads cannot make one affect the other.",
 ['schedules','programs'],"every interleaving of operations on distinct objects","The tests are single threaded.",[B,X,'src/base64.cpp'],
 [('all state in members; static const tables only','src/')],(),['definitions with static storage, external calls'])
prop('C32','Every wait is bounded by the command timeout',
 "No operation waits indefinitely for the network: when the server stops answering (stays silent or closes the connection) before or in the middle of any reply or while the connection is established, sendMail ends after a number of further attempts bounded by the configured command timeout; every blocking connect, TLS handshake, receive and send has a time limit, and the limits follow the configured timeout. (Name resolution, and a server that keeps sending data, are outside this property.)",
 ['fault_sequences','schedules'],"every server behaviour including silence and trickling",NONET,[B,X,F],
 [('wait counters compared with the command timeout',B+' / '+X+' / '+F)],[('mCommandTimeOut','seconds','src/smtpclientbase.h')],['receive loops'])
prop('C33','The communication log records every command and reply',
 "Every command written to the server is recorded in the communication log (with secrets masked) before it is sent, and every reply received is recorded before it is acted upon.",
 ['histories','inputs'],HIST,NONET,[B,X,O,F],
 [('addCommunicationLogItem calls around each exchange',B+' / '+X+' / '+O+' / '+F)],[('mCommunicationLog','log','src/smtpclientbase.h')],['getCommunicationLog()'])
prop('C34','The complete message is transmitted, each part exactly once',
 "Between DATA and end-of-data the client transmits the From, To, Cc and Subject header fields with the message's values, then the whole body and, for every attachment, its type, name, content id and encoded content; nothing is dropped, duplicated or reordered however the content is cut into chunks.",
 ['inputs'],"every body length, number of recipients and number and size of attachments",NONET,[B,M,A],
 [('header assembly and chunked body sending',B+' setMailHeaders, setMailBody, createAttachmentsText')],(),['content written after DATA'])
prop('C35','Lines starting with a dot cannot end the message early',
 "A line of the user's text that starts with a dot is transmitted so that the server does not take it for the end-of-data marker and restores it unchanged (RFC 5321 transparency).",
 ['inputs'],"every body text",NONET,[B],
 [('dot stuffing of the body before it is chunked',B+' setMailBody')],(),['content written after DATA'])
prop('C36','User text cannot inject commands or header lines',
 "No CR or LF contained in a subject, display name, attachment name or content id, nor in an e-mail address, can start a new SMTP command or header line.",
 ['inputs'],"every user-supplied string",NONET,[B,MA],
 [('address validation',MA),('header assembly',B+' setMailHeaders, createAttachmentsText')],(),['commands and header lines written'])
prop('C37','Base64 output encodes exactly the input bits',
 "Base64 encoding emits, for every three input bytes, the four alphabet characters of their four 6-bit groups in order, and for a final one or two bytes the padded groups, with only line breaks in between; attachments and credentials sent are therefore decodable to the original bytes.",
 ['inputs'],"every byte sequence of every length","No test covers the encoder except through small credentials or files.",['src/base64.cpp'],
 [('bit regrouping and table lookup','src/base64.cpp Base64::Encode')],(),['Base64::Encode result'])
prop('C38','The certificate is bound to the configured server name',
 "A TLS session is accepted only if the peer certificate is valid for the configured server name, unless the self-signed exception was opted into.",
 ['inputs','configurations'],"every server name and certificate",NONET,[X],
 [('host name check armed on the SSL object before the handshake',X+' startTLSNegotiation')],(),['SSL_set1_host before the handshake'])
prop('C39','E-mail address syntax checking accepts exactly the documented grammar',
 "An address is accepted by the address classes exactly when it matches the documented e-mail grammar.",
 ['inputs'],"every string","Tests sample addresses.",[MA],[('regular expression',MA+' isEmailAddressValid')],(),['constructor outcome'])
prop('C40','MIME type detection returns the registered type for the extension',
 "For every file name the MIME type returned is the registered type of its extension, ignoring case, and empty for unknown ones.",
 ['inputs'],"every file name","Tests sample each known extension.",[A],[('extension comparison chain',A+' getMimeType')],(),['getMimeType()'])
prop('C41','A send completes within a configured real-time bound',
 "The total real time of a sendMail call never exceeds a bound computable from the command timeout.",
 ['schedules','fault_sequences'],"every server timing",NONET,[B,X],[('sleep-based wait loops',B)],(),['wall clock'])
prop('C42','Replies are read from the transport in force',
 "Until the TLS negotiation starts the replies of the server are read from the plain socket, afterwards only from the TLS session with a completed handshake; while a connection is open no reply is awaited on a transport that does not exist. So a reply that arrives in several pieces is completed on the same transport, and text injected on the plain socket is never taken for a reply after TLS started.",
 ['histories','schedules'],"every client, configuration, history and fragmentation of the replies",NONET,[B,X,O,F],
 [('reply readers of the plain and the secure clients',B+' getRawCommandReply, checkServerGreetings; '+X+' getServerReply; '+F+' checkServerGreetings')],[('mBIO','transport','src/securesmtpclientbase.h')],['recv, BIO_read'])
out=os.path.join(os.path.dirname(__file__),'..','properties.jsonl')
with open(out,'w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p,ensure_ascii=False)+'\n')
print(len(P))
