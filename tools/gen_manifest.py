"""Writes MANIFEST.json and known-findings.txt's header lines from the tables below."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TODO = 'not claimed: the analysis this property needs is not built in this version of the framework'
CLAIMS = {
    'C28': ('partial evaluation of the code-to-text functions over the whole int range (abstract interpretation of the typed syntax tree), compared with the declared constants',
            'Exhaustive over every int code and every public route to the texts. Trusts clang\'s front end and the interpreter\'s semantics (sa/interp.py).'),
    'C29': ('abstract interpretation of getErrorMessage_r over every (code, buffer size) pair with symbolic sizes; store bounds, terminator and return value compared with a specification',
            'Exhaustive over codes and sizes up to 2^30; trusts clang\'s front end and the interpreter\'s semantics and library models.'),
    'C31': ('whole-program effect analysis: every writable static-storage variable and every call to a function that keeps hidden static state is enumerated',
            'Complete for the source of the library; the external-function table (checks/tables.py) lists the C library functions known to be unsafe.'),
    'C18': ('ownership and lifetime analysis: life-cycle scenarios of every value class over symbolic contents, abstract interpretation with an abstract heap (ownership states, strong/weak updates, joins)',
            'Scenarios: construct, one or two calls of every method, copy, move, assign (also to itself), destroy; texts and lists of every length below 2^30.'),
    'C19': ('ownership and lifetime analysis: life-cycle scenarios of every client class over symbolic configuration, abstract interpretation with an abstract heap',
            'Scenarios: construct, one or two calls of every method, copy, move, assign (also to itself), destroy.'),
    'C20': ('relational abstract interpretation: getter values of original and copy compared symbolically, before and after changes to either',
            'Every copyable class, every setter; values compared as symbolic texts, numbers and lists; values that lost precision are counted, not judged.'),
    'C21': ('relational abstract interpretation: getter values of move target and former source compared symbolically; the source destroyed and reassigned',
            'Every movable class; values compared as symbolic texts, numbers and lists.'),
    'C23': ('exception-path effect analysis: every rejecting path of every constructor and setter interpreted; getters before and after compared; table of arguments which must be rejected',
            'All public constructors and setters of all classes.'),
    'C24': ('alias analysis by abstract interpretation: every setter applied to every type-compatible getter of the same object',
            'All setter/getter pairs of all classes.'),
}
NOTE = 'Every reply of the server, every failure of a modelled system or OpenSSL call, user texts of every content and length, sendMail on a fresh client and (where the property needs it) on every state a first call can leave; thorough adds configurations (credential methods, self-signed option, batch mode, attachments). Trusts clang\'s front end, the interpreter and the models of libc/OpenSSL.'
SESSION = {
    'C04': 'abstract interpretation of the EHLO evaluation: the text tests made on the reply related to the next command',
    'C42': 'typestate analysis of the transport of every read: plain socket before, TLS session after the negotiation',
    'C01': 'taint and typestate analysis: abstract interpretation of sendMail with credentials as taint sources, plain-socket and TLS writes as sinks, certificate state as typestate',
    'C02': 'typestate analysis of TLS sessions (handshake, peer certificate, verification result) by abstract interpretation over all outcomes of the OpenSSL calls',
    'C03': 'typestate analysis of connections: no plain write after the TLS negotiation starts, abstract interpretation over all replies and failures',
    'C05': 'taint analysis: password as source, communication log and console as sinks, abstract interpretation of the whole session',
    'C06': 'path-sensitive protocol analysis: result 0 of sendMail related to the reply classes of the commands sent',
    'C07': 'typestate analysis of the SMTP dialogue: every command text classified and compared with the order allowed by the reply class before it',
    'C08': 'path-sensitive counting analysis: every RCPT command matched with the list element it names, counts compared symbolically with the list lengths',
    'C09': 'taint analysis: Bcc addresses and display names as sources, the text written between DATA and end-of-data as sink',
    'C34': 'symbolic content analysis: the transmitted text as a sequence of literals and slices of the message\'s texts, slices of chunked texts matched by symbolic offsets',
    'C35': 'transducer extraction and equivalence: the character loop that prepares the body is summarised as a finite-state transducer and compared with the dot-stuffing rule by product construction',
    'C36': 'taint analysis with sanitizers: line breaks in user texts as taint, character maps and validation patterns as sanitizers, commands and header text as sinks',
    'C10': 'path-sensitive protocol analysis plus symbolic comparison of the AUTH texts with the configured credentials',
    'C11': 'relational analysis: the AUTH mechanism sent related to the evidence found in the EHLO reply and the configured method',
    'C12': 'error-propagation analysis: every failing branch of every network and TLS call followed to the result of sendMail',
    'C13': 'error-code dataflow: the first failed operation or refused step on every path related to the value sendMail returns',
    'C14': 'typestate analysis of descriptors, SSL, SSL_CTX, BIO and address lists over sessions and object life cycles',
    'C15': 'typestate analysis: connection state at every failing return of sendMail',
    'C16': 'typestate analysis of QUIT and call-graph recursion detection on the abstract paths',
    'C17': 'typestate analysis of the session across two consecutive sendMail calls',
    'C22': 'ownership analysis of live connections through copy, move, assignment and destruction',
    'C25': 'bounds analysis of every array access by abstract interpretation with symbolic lengths',
    'C27': 'null, lifetime, initialisation, bounds and escaping-exception analysis over every server reply',
    'C32': 'termination analysis: abstract interpretation with a server that falls silent before or in every reply, rounds of every wait counted; time limits of blocking calls as typestate of the socket',
    'C33': 'event-order analysis: commands and replies against the items appended to the communication log',
    'C38': 'typestate analysis: host name binding of every TLS session before its handshake',
}
for k, v in SESSION.items():
    CLAIMS[k] = (v, NOTE)
NA = {
    'C39': 'the accepted language is decided by a regular expression executed by std::regex at run time; comparing it with a documented grammar is language equivalence of a runtime engine\'s input, outside what a sound dataflow argument over this source can settle',
    'C40': 'pure table content: whether a MIME string is the registered one is a fact about the IANA registry, not about the program text, and there is no oracle in this sandbox',
    'C41': 'real elapsed time depends on the network, the kernel and the resolver; no sound static argument bounds it (the per-wait limits that can be decided are C32)',
}


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in CLAIMS:
            t, note = CLAIMS[i]
            checks.append({'property': i, 'quick_cmd': 'python3-vt checks/check.py ' + i,
                           'thorough_cmd': 'VERIF_TIER=thorough python3-vt checks/check.py ' + i,
                           'technique': 'static analysis: ' + t, 'level': 'other', 'level_note': note})
        else:
            na.append({'property': i, 'reason': NA.get(i, TODO)})
    m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1); f.write('\n')
    print(len(checks), 'claimed', len(na), 'not')


main()
