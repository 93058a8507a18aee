#!/usr/bin/env python3
"""Writes properties.jsonl (the single place the property texts are edited)."""
import json, os
B='webauthn_rp/backends.py'; P='webauthn_rp/parsers.py'; A='webauthn_rp/attesters.py'; V='webauthn_rp/verifiers.py'
C='webauthn_rp/converters.py'; R='webauthn_rp/registrars.py'; D='webauthn_rp/validators.py'; U='webauthn_rp/utils.py'
N='webauthn_rp/builders.py'; T='webauthn_rp/types.py'; S='webauthn_rp/asn1.py'; K='webauthn_rp/constants.py'; E='webauthn_rp/errors.py'
REG='CredentialsBackend.handle_credential_attestation'; AUT='CredentialsBackend.handle_credential_assertion'
props=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    props.append(d)

p('S01','Authentication agreement against a network attacker',
  'Whenever an authentication ceremony is accepted, the private key registered for the presented credential signed exactly that ceremony: its fresh challenge, one of its allowed origins, its relying party, and a counter above every counter accepted for that credential before. No attacker who records, replays, reorders, truncates and recombines messages of other users, sessions, origins, relying parties and ceremony kinds obtains an acceptance, and no signed response is accepted twice.',
  ['histories','schedules','inputs'],'every interleaving of registrations and authentications of several users, authenticators, relying parties and origins with an attacker that submits any recombination of the messages seen so far',
  'The tests run single ceremonies on hand-made messages; no test has two sessions, two credentials, a replay, a phishing origin or a recombined response in one history.',
  [B,P,V,R],[('assertion ceremony',B+':'+AUT),('signature verification',V)],[AUT,'registrar callbacks'],
  [('credential store','registered key, last counter, user and RP per credential id','the registrar given by the application')])
p('S02','Registration agreement against a network attacker',
  'Whenever a registration ceremony is accepted, its client data names exactly that ceremony (its fresh challenge, one of its allowed origins, creation) and its authenticator data the relying party; with FIDO U2F and Android key attestation the attesting key signed these together with the very credential that is handed to storage. Storage is handed exactly what the message carries, a credential id has one owner for ever, and no recombination of messages of other sessions, origins, relying parties or authentications is accepted, whatever attestation format it carries.',
  ['histories','schedules','inputs'],'the same histories as S01, for the registration ceremonies in them',
  'The tests register one self-made attestation object at a time and never replay or recombine messages across sessions.',
  [B,P,A,R],[('attestation ceremony',B+':'+REG),('attestation',A)],[REG,'registrar callbacks'])
p('C01','Ceremony type and challenge binding',
  'A ceremony is accepted only if the client data names this kind of ceremony exactly (creation for registration, get for authentication) and carries the base64url encoding of exactly the expected challenge bytes. A challenge that differs in any byte or in length, and client data made for the other kind of ceremony or any other type text, is refused and nothing reaches storage.',
  ['inputs'],'all expected challenges (any length and content, empty included), all client-data challenge and type texts, both ceremonies, alone and together with other faults',
  'The tests use one or two fixed challenges; they cannot show that no prefix, extension, other encoding or cross-ceremony type is accepted.',
  [B,U,P],[('type and challenge comparison',B),('base64url decoding',U+':url_base64_decode')],[REG,AUT])
p('C02','Origin binding',
  'A ceremony is accepted only if the origin in the client data denotes the same scheme, host and port as one of the expected origins taken as a whole, where an absent port means the default port of the scheme. Origins that are not http or https, lack a host, have a malformed port, or carry a path, query or fragment are refused on either side, and an empty collection of expected origins accepts nothing.',
  ['inputs','configurations'],'all client origins and all single, list, tuple or set forms of expected origins, both ceremonies',
  'The tests try a handful of origins; port defaulting, multi-origin combination and look-alike hosts are not sampled.',
  [B,P],[('origin parsing',P+':parse_origin'),('allowed origin set',B+':CredentialsBackend._extract_allowed_origins')],['parse_origin',REG,AUT])
p('C03','Token binding agreement',
  'If a token binding is expected, a ceremony is accepted only when the client data carries a token binding with the same status and the same identifier; if none is expected, it is accepted only when the client data carries none. This holds for both statuses and whether or not identifiers are present on either side.',
  ['inputs','configurations'],'all pairs of expected and received token bindings (absent, supported, present; no identifier, equal, different, empty, prefix), both ceremonies',
  'The tests cover a few pairs in one ceremony each; the whole matrix in both ceremonies is not covered.',
  [B,P],[('token binding comparison',B),('token binding parsing',P+':parse_client_data')],[REG,AUT])
p('C04','Relying party hash, user presence and user verification',
  'A ceremony is accepted only if the authenticator data starts with the SHA-256 of the relying party id in force, the user-presence flag is set, and, when user verification is required, the user-verification flag is set. No other flag bit and no other field stands in for these, and user verification is not demanded when it is not required.',
  ['inputs','configurations'],'all 256 flag bytes x required or not x both ceremonies; all relying party ids, and hashes that differ in any byte',
  'The tests try a few flag bytes and one wrong hash; a wrong bit mask or a partial hash comparison would pass them.',
  [B,P,T],[('rp id hash, UP and UV checks',B),('flag bits',T+':AuthenticatorDataFlag')],[REG,AUT])
p('C05','Required extension outputs are enforced',
  'When extension outputs are required, a ceremony is accepted only if every required one is present in the authenticator data; a present output counts whatever its value (false, zero-length and empty values included), and outputs that were not required never cause refusal. With no requirement, or an empty one, presence of extensions is irrelevant.',
  ['inputs','configurations'],'all subsets of the nine extensions required x all subsets present with all kinds of values, both ceremonies',
  'The tests require one or two extensions; there are 2^18 combinations and falsy values are not sampled.',
  [B,P,T],[('expected extension loop',B),('extension identifiers',T+':ExtensionIdentifier')],[REG,AUT])
p('C06','Assertions are signed by the registered key',
  'An authentication is accepted only if the response carries a valid signature by the key stored for that credential, with the hash of the stored algorithm, over the received authenticator data followed by the SHA-256 of the received client data. Any change of a byte of the signature, authenticator data or client data, a key or algorithm other than the stored one, and any truncation or extension is refused, for every supported curve and algorithm pairing.',
  ['inputs'],'all keys on P-256, P-384, P-521, Ed25519 and Ed448 with every permitted algorithm, named or numbered; all signatures and signed data',
  'The tests verify one signature per curve; they cannot show that no other data, key or hash is accepted.',
  [V,B,C,U],[('verification',V),('hash choice',U+':ec2_hash_algorithm'),('signed data',B)],[AUT,'verify'])
p('C07','Signature counters only move forward',
  'With a stored counter, an authentication is accepted only if the received counter is strictly greater as an unsigned 32-bit number, unless the caller asked to ignore clone warnings; with no stored counter every received counter is accepted. Over any history the counters accepted for a credential are strictly increasing, a replayed or cloned response is refused, and ignoring clone warnings relaxes nothing else.',
  ['histories','schedules','inputs'],'all stored and received 32-bit counters (boundaries included), all histories of genuine, replayed and cloned responses, and interleavings of two ceremonies on one credential',
  'The tests have no case with a stored counter history; equality, wrap-around, sign and ordering are unsampled.',
  [B,P,R],[('clone check',B+':'+AUT),('counter decoding',P+':parse_authenticator_data')],[AUT,'registrar callbacks'],
  [('stored counter','last accepted signature counter of the credential, or none','the registrar given by the application')])
p('C08','Credential, user and relying party resolution',
  'An authentication is accepted only if the presented credential id is in the allow list when one is given, the store knows it, its owner is the given user when one is given, any user handle in the response equals the owner id, and a user handle is present when no user is given. The relying party in force is the stored one or the given one, at least one must exist, and if both exist their ids must be equal.',
  ['inputs','configurations'],'all combinations of allow list (absent, empty, with and without the id), store answers, given and stored users, user handles, given and stored relying parties',
  'The tests cover single failures; the full product and falsy or empty values are not covered.',
  [B,R],[('allow list, user and RP checks',B+':'+AUT),('stored credential',R+':CredentialData')],[AUT])
p('C09','Storage is updated exactly once, last, and with the checked data',
  'Storage is asked to record a ceremony exactly once if every check passed and never otherwise, and it receives the very credential, parsed data, attestation result, user and relying party that were checked. A ceremony succeeds only if storage answers with nothing; any other answer (false, zero and empty values included) and any exception from storage is reported as a registration error.',
  ['inputs','fault_sequences'],'all ceremonies x all answers and exceptions of the three storage callbacks',
  'The tests use registrars that succeed or fail one way; falsy answers, failures at each callback, call counts and argument identity are not checked.',
  [B,R],[('registrar calls',B)],['registrar callbacks',REG,AUT])
p('C10','Every valid ceremony is accepted',
  'A registration or authentication that satisfies all the required checks is accepted and returns nothing, whatever its sizes and optional parts: any challenge, credential id and user handle length, any supported key and algorithm, any extension outputs, any unreserved or reserved extra flag, any extra client-data member, any relying party id and origin spelling that denotes the same origin. Being stricter in one option never makes a ceremony that satisfies it fail.',
  ['inputs','configurations'],'all valid ceremonies over the supported keys, attestation formats and options',
  'The tests accept a few fixed ceremonies; a new spurious refusal for an unsampled size or value would not be seen.',
  [B,P,A,V,C],[('whole ceremony',B)],[REG,AUT])
p('C11','Errors are contained and truthful',
  'For every input, a ceremony or parser call either returns or raises an error of the library: no other exception escapes, however malformed the bytes, and the call always terminates. The specific error raised names a fault that the input really has.',
  ['inputs','fault_sequences'],'arbitrary and mutated byte strings, structured inputs with one or several faults, failing storage callbacks',
  'Tests assert the error of single-fault inputs; arbitrary malformed bytes and fault combinations are unbounded.',
  [B,P,E,A],[('error hierarchy',E),('catch-all',B)],[REG,AUT,'the public parsers'])
p('C12','FIDO U2F attestation is verified',
  'A FIDO U2F registration is accepted only if the statement holds exactly one certificate with a P-256 key whose signature (ECDSA with SHA-256) covers zero, the relying party hash, the client data hash, the credential id and the uncompressed credential point, and the credential key is on P-256. It is then reported as basic attestation with that certificate as the path.',
  ['inputs'],'all certificates (0, 1, 2 entries; EC, RSA, EdDSA; malformed), all signed data variations, all credential keys',
  'The tests check one good and a few bad statements directly and none through a whole registration.',
  [A,B,P],[('U2F attestation',A+':attest_fido_u2f')],[REG,'attest'])
p('C13','Android key attestation is verified',
  'An Android key registration is accepted only if the first certificate carries the credential public key and an attestation extension with the client data hash as challenge, no all-applications entry in either list, and a hardware-enforced origin of generated and purpose containing sign, and its key signed authenticator data followed by the client data hash. Entries of the software-enforced list never stand in for the hardware-enforced ones; the result is basic attestation with that certificate as the path.',
  ['inputs'],'all key descriptions (every optional authorization present or absent, values, several purposes), certificates, algorithms and signatures',
  'The tests check a few hand-made key descriptions directly; the field combinations of two 30-entry lists are not sampled.',
  [A,S,K,B],[('Android key attestation',A+':attest_android_key'),('ASN.1 schema',S)],[REG,'attest'])
p('C14','No attestation, and unsupported formats',
  'A registration with the none format is accepted only with an empty statement and is reported as no attestation without a path. A registration whose statement format has no implemented verification, is unknown, or whose statement does not belong to its format is never accepted.',
  ['inputs'],'all formats, statements of one format under the name of another, case and spelling variants of names',
  'The tests sample a few formats without whole registrations.',
  [A,P,B],[('dispatch on statement type',A+':attest'),('format identifiers',T)],[REG,'attest','parse_attestation_object'])
p('C15','Authenticator data is decoded exactly',
  'Decoding authenticator data yields the hash, flags, unsigned big-endian counter, AAGUID, credential id of the stated length, key and extension outputs found at their specified positions, the optional parts being present exactly when their flags are set. Input that is too short, ends inside a part, has bytes left over, or has a part without its flag is refused.',
  ['inputs'],'all byte strings: every truncation and extension of valid data, all flag bytes, credential id lengths 0 to 65535',
  'The tests parse a few fixed layouts.',
  [P,T],[('layout parsing',P+':parse_authenticator_data')],['parse_authenticator_data'])
p('C16','Only supported public keys are accepted',
  'A credential key is accepted only if its key type, curve, algorithm and coordinates are present with the right types, the coordinate lengths are those of the curve, the curve and algorithm belong to the key type, and optional members are well formed; the decoded key has exactly these values. In particular symmetric keys, other algorithms, mixed types and empty operation lists are refused when read from authenticator data.',
  ['inputs'],'all combinations of key type, curve, algorithm (numbers and names), coordinate lengths, member types and missing members',
  'The tests sample single wrong fields.',
  [P,D,U,K,T],[('COSE key parsing',P+':parse_cose_key'),('validation',D)],['parse_cose_key','parse_authenticator_data','validate'])
p('C17','Key conversions are faithful',
  'Encoding a credential key to COSE bytes and decoding it again gives an equal key, every optional member included, and no member appears or disappears. Conversion to a cryptographic public key gives the same curve point, and coordinates that are not a point on the curve are refused.',
  ['inputs'],'all EC2 and OKP keys, with all subsets of optional members and named or numbered identifiers',
  'The tests convert a few keys without most optional members.',
  [C,P],[('COSE encoding',C+':cose_key'),('public key conversion',C+':cryptography_public_key')],['cose_key','parse_cose_key','cryptography_public_key'])
p('C18','Client data is decoded exactly',
  'Decoding client data accepts UTF-8 JSON objects with text type, challenge and origin and, if there is a token binding, an object with a known status and an identifier when the status is present, and yields exactly these values. Additional members are ignored; a document that is not such an object is refused.',
  ['inputs'],'all byte strings, JSON documents with members missing, null, of each other type, duplicated, escaped or reordered',
  'The tests sample a few documents.',
  [P],[('client data parsing',P+':parse_client_data')],['parse_client_data'])
p('C19','Credential JSON is decoded exactly and survives a round trip',
  'Decoding a credential from JSON accepts the two documented shapes with standard base64 for byte members, yields exactly the encoded bytes, and refuses every unknown, missing or wrongly typed member and undecodable base64. Converting the decoded credential to JSON and decoding it again gives an equal credential.',
  ['inputs'],'all JSON credentials: each member missing, null, of each other type, misspelled; all byte contents and lengths',
  'The tests decode a few fixed credentials.',
  [P,C],[('credential parsing',P+':parse_public_key_credential')],['parse_public_key_credential','jsonify'])
p('C20','Attestation objects and statements are decoded exactly',
  'Decoding an attestation object accepts exactly a CBOR map with text format, map statement and byte-string authenticator data, where the statement has exactly the members of its format with the right types, and yields exactly these values together with the raw map. Missing, additional, misspelled or wrongly typed statement members are refused for every format.',
  ['inputs'],'all six formats and their variants x each member missing, added, of each other type',
  'The tests sample a few statements.',
  [P,T],[('attestation object parsing',P+':parse_attestation_object')],['parse_attestation_object','the statement parsers'])
p('C21','Extension outputs are decoded exactly',
  'Decoding extension outputs accepts exactly the nine known outputs with their specified types, nested types included, and yields each under its own name with its value unchanged; absent ones are none. Unknown names, wrong types and wrong nested types are refused.',
  ['inputs'],'all subsets of outputs with all values of right and wrong types, nested members included',
  'The tests sample a few values for each output.',
  [P,T],[('extension parsing',P+':parse_extensions')],['parse_extensions','parse_authenticator_data'])
p('C22','Option builders are persistent and faithful',
  'Setting an attribute on an option builder returns a new builder and never affects what the original or any other builder builds, before or later, and objects the original already held are not shared with the new one. Building yields options holding exactly the values last set along that builder history, defaults elsewhere, and fails with a builder error exactly when a required value was never set.',
  ['histories'],'all trees of setter and build calls over several builders of both kinds',
  'The tests build linear chains and look at the final result only.',
  [N,T],[('copy on write',N)],['CredentialCreationOptionsBuilder','CredentialRequestOptionsBuilder'],
  [('builder fields','values set so far','private to the builder')])
p('C23','Conversion to JSON is faithful and pure',
  'Converting options and credentials to JSON yields each attribute under its camel-case name with bytes in standard base64, enumerations as their values and nested objects and lists converted in order; absent attributes are left out and nothing else is lost, added or renamed. The result is serialisable, the input is left unchanged, and values with no JSON form are refused with a library error.',
  ['inputs','programs'],'all values of all option, credential and entity types, nested dictionaries and lists, with and without case conversion',
  'The tests convert a few objects.',
  [C,U,T],[('JSON conversion',C+':jsonify'),('name conversion',U)],['jsonify'])
p('C24','Ceremonies and calls do not influence each other',
  'The outcome of every ceremony, parser, converter and verifier call depends only on its arguments and on the answers of storage: it is the same whatever was called before, however often it is repeated, and whatever runs concurrently in other threads on the same or another backend. Calls never modify their arguments.',
  ['histories','schedules','configurations'],'all orders and repetitions of calls, and preemption of a ceremony at any point by another ceremony, also with the interpreter in optimised mode',
  'Tests run each call once in one thread.',
  [B,P,A,V,C,U],[('no shared state',B)],[REG,AUT,'all public functions'])
p('C25','base64url and naming helpers are exact',
  'base64url encoding followed by decoding gives back any byte string, decoding accepts the unpadded form, and distinct byte strings never share an encoding. Conversion between lower-camel-case and snake-case names is exact and reversible for all names the library exchanges with browsers.',
  ['inputs'],'all byte strings of all lengths (every value in every position of a quantum), all snake and camel names of letters and digits with no leading capital',
  'The tests sample a few strings.',
  [U,T],[('base64url',U+':url_base64_decode'),('names',U+':snake_to_camel_case')],['url_base64_encode','url_base64_decode','snake_to_camel_case','camel_to_snake_case'])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for d in props: f.write(json.dumps(d,ensure_ascii=False)+'\n')
print(len(props))
