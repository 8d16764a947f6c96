"""property -> rules, features analysed, wording of the evidence"""
import ctx as C
import rules_life
import rules_com
import rules_key
import rules_recv
import rules_send
import rules_static

COMMON = [
    'rustc nightly lowers the source to MIR with the meaning the stable compiler gives it; debug-assertion '
    '(overflow-checking) MIR is analysed',
    'models of std and of the crates ring, chacha20-poly1305-aead, flate2, serde_cbor, bincode, serde_json, zeroize '
    'follow their documentation',
    'integers: usize is 64 bits; no slice, vector or message is longer than isize::MAX bytes',
]
WORLD = ('Abstract interpretation of the MIR of every exported layer operation from every reachable state shape of '
         'the layer (symbolic byte strings, numbers, presence of fields; all inputs, all loops by induction); each '
         'result partition yields its facts, its effect on the layer and its output. ')


TECH = 'abstract interpretation of MIR over reachable object states'
NOTE = ('Decides the property on every path of the compiled source for all inputs, from every state shape reachable by '
        'any sequence of exported operations (loops by induction, no bound on lengths or counts). Trusts the analyser, '
        'the models of std and of the crypto/codec crates, and that unmodelled external functions have no effect '
        'beyond their arguments; fails closed when the analysis cannot decide.')


class Prop:
    def __init__(self, fn, text, level='other', assumptions=(), features=('--all-features',), deep=None, world=True,
                 technique=None, note=None):
        self.fn, self.level = fn, level
        self.technique = technique or TECH
        self.note = note or NOTE
        self.explanation = (WORLD if world else '') + text
        self.assumptions = list(COMMON) + list(assumptions)
        self.features = features
        self.deep = deep if deep is not None else features

    def run(self, rep, thorough):
        for f in (self.deep if thorough else self.features):
            rep.prefix = '' if f == '--all-features' else '[%s] ' % f
            if self.fn.__code__.co_argcount > 2:
                self.fn(C.Ctx(f), rep, thorough)
            else:
                self.fn(C.Ctx(f), rep)
            rep.prefix = ''


DEEP = ('--all-features', '--no-default-features', '--no-default-features --features ser',
        '--no-default-features --features zip-sign')

PROPS = {
    'C01': Prop(rules_life.C01, 'Obligation: no panic (explicit, bounds, arithmetic, slicing, unwrap, unreachable) is '
                'reachable in a read operation from any state, for any bytes; 64-bit event counters only ever move by '
                'small steps; no unchecked memory access is called.'),
    'C02': Prop(rules_life.C02, 'Obligation: no panic is reachable in any exported operation from any state reachable '
                'through any sequence of exported operations, nor in any other exported function.'),
    'C03': Prop(rules_life.C03, 'Ghost history: from every state whose history contains a fatal error, no operation '
                'delivers, writes, creates or clones.'),
    'C05': Prop(rules_recv.C05, 'Obligation per delivered message: its bytes are the authenticated plaintext of a '
                'decryption with the session key, the SHA-256 comparison of that plaintext holds on the path, the payload is '
                'the slice between header and length field; handshake messages come from undecrypted bytes.'),
    'C06': Prop(rules_recv.C06, 'Obligation per accepted CONNECT: the path contains the successful Ed25519 verification of '
                'message[..end] under the key at its announced place, equality with the expected key when one is kept, and '
                'keeps that key; no other path changes the kept key.'),
    'C07': Prop(rules_recv.C07, 'Obligation per accepted ACK: the path contains the equality of the challenge with the '
                'SHA-256 of the own ephemeral key and the successful Ed25519 verification under the kept peer key.'),
    'C09': Prop(rules_recv.C09, 'Numeric/set domain: with "received" = below the counter or in the set, every delivery '
                'excludes and afterwards includes its number, no path shrinks "received" (loops by induction), clones start '
                'with the same, refusals change nothing.'),
    'C10': Prop(rules_recv.C10, 'Every path of a read in a negotiated state that does not deliver contradicts the '
                'conjunction "authentic, well-formed, fresh, in window"; "received" grows by delivered numbers only.'),
    'C12': Prop(rules_recv.C12, 'Inductive bound of every collection of the layer over every operation and loop; byte '
                'fields are replaced, never appended to.'),
    'C27': Prop(rules_recv.C27, 'Every "nothing to deliver yet" path stores the received bytes or their plaintext; no other '
                'non-fatal path loses what is stored; the draining loop visits every element in order and delivers it unless '
                'its number is known as received.'),
    'C28': Prop(rules_recv.C28, 'Every path of a read that does not accept contradicts the conjunction "well-formed, '
                'signed by the right key, first of its kind"; creation of a due handshake message has no error path.'),
    'C04': Prop(rules_send.C04, 'Obligation per path that writes: what is appended to the output is exactly one AEAD '
                'ciphertext and its own tag (a prefix of it when an error is reported), under the key leaf of the layer, of an '
                'encapsulated message holding the data followed by its SHA-256, in states whose history has the handshake.'),
    'C11': Prop(rules_send.C11, 'The number at bytes 18..26 of every encrypted message is the value of one counter field; '
                'that field starts at 0, grows by one on exactly the successful writes, is copied to clones and is untouched by '
                'every other non-fatal path and loop.'),
    'C17': Prop(rules_send.C17, 'Layout of every produced message (symbolic bytes per offset) and, per accepted message, the '
                'facts of the path about magic, version, type, algorithm, length and the offsets its parts are taken from.'),
    'C18': Prop(rules_send.C18, 'Writers may take any part of the bytes offered to write(): every path reporting success has '
                'appended the complete message and signature or tag, has no short or lost write and no writer failure.'),
    'C24': Prop(rules_send.C24, 'Every key, nonce and associated data used by the cipher is a leaf assigned from the derived '
                'secret; the key or nonce of an encryption depends on the message number.'),
    'C13': Prop(rules_key.C13, 'The cipher inputs are three fields; the only paths that assign them accept a CONNECT message, '
                'and assign slices 0..32, 32..44, 44..48 of PBKDF2-HMAC-SHA384 over the X25519 agreement of the own private key '
                'with bytes 18..50 of that message, with a salt the path knows to be the larger key.'),
    'C14': Prop(rules_key.C14, 'Value flow of the ephemeral key pair from its generation through every operation: drawn once '
                'from the OS generator, announced unchanged, gone after the agreement, never redrawn; session key fields never '
                'change once set; every random source is the OS.'),
    'C19': Prop(rules_com.C19, 'Every signature made covers bytes just created as CONNECT or ACK, by the key pair leaf whose '
                'public key is at bytes 54..86 of the CONNECT; successful handshake writes append message ++ signature, failing '
                'ones a beginning of it; the leaf comes from the seed argument and never changes.'),
    'C20': Prop(rules_com.C20, 'Value flow of payloads: what is handed to the minimal layer is compress(bytes) or '
                'compress(code ++ serialize(object)), exactly once, absent stays absent; the returned list is, element by element '
                '(loops: each iteration one element, in order, to the end), what the minimal layer delivered, through decompress '
                'and deserialize.'),
    'C21': Prop(rules_com.C21, 'Tables computed from the format conversions (every variant to bytes, every byte string to '
                'variant or refusal) are inverse bijections with the documented codes; every (code, codec) pair on sending and '
                'receiving paths agrees with it.'),
    'C22': Prop(rules_com.C22, 'Each fallible primitive yields a failing alternative; no path that took one reports success, '
                'loops included.'),
    'C23': Prop(rules_com.C23, 'Ghost history of clones: configuration leaves change exactly in change_config on never-cloned '
                'layers, to the given values; refusals change nothing; clones copy them and create no handshake message; the '
                'settings select the compression level on each path.'),
    'C15': Prop(rules_static.C15, 'Secret bytes (key-agreement output, session key leaves, the signature seed) are followed '
                'through every operation; every type holding them lies within a type whose Drop, analysed abstractly, leaves none '
                'of its bytes; values dropped on any path hold them only inside such types; nothing prevents those drops.'),
    'C16': Prop(rules_static.C16, 'Every formatting implementation (derived or written), analysed on a symbolic value, hands the '
                'formatter only values that are not secret bytes or that are printed by another implementation of the crate; '
                'no operation prints secret bytes or returns an error carrying them.'),
    'C25': Prop(rules_static.C25, 'The type checker of the repository\'s own toolchain decides every configuration (all sets of '
                'named features closed under implication, plus the optional dependencies alone and together; thorough: all '
                'subsets); the exported items of each are compared with what its features name; the format rules of C21 (codes both ways, '
                'codec per code on every path) are decided in each configuration that has formats.', world=False,
                technique='type checking of every configuration; abstract interpretation of the format paths per configuration'),
    'C26': Prop(rules_static.C26, 'Facts of the type-checked program, per configuration: auto traits, Clone/Copy and public '
                'fields of the layers, exported functions from layer to layer, Copy/Clone of every type that holds secrets (found by '
                'what the code stores in it).', features=DEEP, world=False, technique='type-level facts from the compiler '
                '(trait solving, visibility, signatures)'),
    'C08': Prop(rules_life.C08, 'Ghost history of reported handshake steps: deliveries of user messages, writes of user '
                'messages and clones happen only in states whose history has all four steps; each step is reported at '
                'most once; ACK creation follows CONNECT acceptance.'),
}

NOT_APPLICABLE = {
    'C29': 'Value-level inverse relation between external compressors and serializers (flate2, serde_cbor, bincode, '
           'serde_json) over all values: the code that would have to be reasoned about is generic, outside the crate, and no '
           'static argument in reach bounds it; the static part (each payload passes exactly once through matching '
           'codecs) is decided under C20 and C21.',
    'C30': 'A computational (cryptographic indistinguishability) and micro-architectural timing claim: it quantifies over '
           'adversaries and machine timing, which no source-level static analysis decides.',
}
