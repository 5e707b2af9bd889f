"""The properties, one entry each; tools/make.py writes properties.jsonl and
MANIFEST.json from them."""
PROPS = []


def prop(id, title, statement, text, tests, files, mech, over=('inputs',),
         state=(), observe=(), note=''):
    PROPS.append(dict(
        id=id, title=title, statement=' '.join(statement.split()),
        quantifier={'over': list(over), 'text': ' '.join(text.split())},
        why_tests_cant=' '.join(tests.split()),
        anchors={'files': ['golem_messages/' + f for f in files],
                 'state': [dict(zip(('name', 'meaning', 'where'), s))
                           for s in state],
                 'mechanism': [{'name': n, 'where': 'golem_messages/' + w}
                               for n, w in mech],
                 'observe_at': list(observe), 'hook_needed': None},
        _note=' '.join(note.split())))


prop('C01', 'What is sent is what is received',
     '''Any message that fulfils the conditions of its class, once serialized
     (encrypted or not) and deserialized by the receiver, is accepted and is
     a message of the same class with the same type, timestamp, signature and
     protocol version and with every field equal, included messages and their
     own signatures too, and it tells whether it came encrypted. Serializing
     the received message again gives the same bytes, so that messages can be
     passed on.''',
     '''every message class, every value of every field, every timestamp
     within the accepted range, with and without encryption''',
     '''tests send one fixed example of some classes; the round trip must
     hold for any contents of any class''',
     ['message/base.py', 'message/tasks.py', 'message/concents.py',
      'message/p2p.py', 'message/resources.py'],
     [('Message.serialize', 'message/base.py'),
      ('Message.deserialize', 'message/base.py'),
      ('slot (de)serialization', 'message/*.py')],
     note='lists of structured parts (peers, task headers, files, lists of '
     'messages) have any length, by an argument for an arbitrary element')

prop('C02', 'Messages have the published wire format',
     '''A serialized message is its two-byte type number, eight-byte
     timestamp and encryption flag (big endian), then the 65 bytes of the
     signature, then the encoded contents, encrypted when encryption is asked
     for and the class is not an unencrypted one, and for the greeting message
     finally the 32 bytes of the protocol version. The contents are the
     published fields of the class, all of them, in the published order with
     their names and values in wire form (enumerations by their published
     texts, included messages with their header, signature and contents).
     A new message carries the type number of its class and the current time
     in whole seconds, and the unsigned and the unencrypted classes are the
     published ones.''',
     'every message class, every value of every field, with and without '
     'encryption',
     '''tests compare a few recorded examples; the format must be the same
     for any contents''',
     ['message/base.py', 'message/tasks.py', 'message/concents.py',
      'message/p2p.py', 'message/resources.py'],
     [('Message.serialize', 'message/base.py'),
      ('Message.slots', 'message/base.py')],
     note='lists of structured parts have any length, by an argument for an '
     'arbitrary element')

prop('C11', 'Message type numbers are unique, stable and both ways',
     '''Every message type number identifies exactly one message class and
     every message class of the protocol has exactly one number, so looking a
     class up by its number and back always gives the same answer.
     Registering a number that is taken is refused with an error and leaves
     the register as it was, and unknown numbers and classes are reported as
     missing. The numbers of the protocol's messages are those of the
     published protocol and do not change.''',
     '''every integer as type number, every class, every order of
     registrations''',
     '''tests register two or three classes; uniqueness must hold for every
     number and history of registrations''',
     ['register.py', 'message/base.py', 'message/tasks.py',
      'message/concents.py', 'message/p2p.py', 'message/resources.py'],
     [('MessageRegister.add_message_class', 'register.py'),
      ('class decorator library.register', 'message/*.py')],
     over=('inputs', 'histories'),
     note='any integer / any sequence of two registrations on top of any '
     'register state built from them; the published numbers are a table')

prop('C19', 'Field validators accept exactly the documented values',
     '''Each field validator accepts a value exactly when it is documented to
     (integers but not booleans, integers of at least 1, ports 1 to 65534,
     text of at most the given length or 128 characters, booleans,
     dictionaries, semantic versions, IPv4 or IPv6 addresses as text, numeric
     forms of addresses being left open) and
     otherwise raises a field error which carries the name of the field and
     the rejected value. No other exception ever escapes from a validator,
     whatever the type of the value, and the generic check asks its predicate
     exactly once about exactly that value.''',
     'every value of every type the wire format can carry',
     '''tests try a few literal values per validator; the boundary must be
     right for every value of every type''',
     ['validators.py', 'exceptions.py'],
     [('validate_*', 'validators.py'), ('FieldError', 'exceptions.py')],
     note='all wire-representable values; ipaddress and semantic_version are '
     'assumed contracts')

prop('C20', 'Containers have a strict schema and survive a round trip',
     '''A container (node, task header, provider statistics) is accepted
     exactly when all its required fields are present and every field given is
     declared and passes its validators, an empty optional field being always
     accepted; anything else is refused with a field error naming the
     offending field. Every accepted field keeps the value it was given and
     comes back in the dictionary form, which has exactly the declared fields,
     and building from the dictionary form gives the same container again.
     Defaults are fresh for every container and nested parts (owner node,
     usage statistics) may be given as objects or in dictionary form.''',
     'every field with every value of every type, every unknown field name',
     '''tests check one wrong value for some fields; the schema must hold for
     every value of every field''',
     ['datastructures/__init__.py', 'datastructures/p2p.py',
      'datastructures/tasks.py', 'datastructures/stats.py'],
     [('Container', 'datastructures/__init__.py'),
      ('TaskHeader', 'datastructures/tasks.py'),
      ('Node', 'datastructures/p2p.py'),
      ('ProviderStats', 'datastructures/stats.py')],
     note='each field separately with any value, and all fields together '
     'with any good values')

prop('C21', 'Validated and frozen dictionaries hold only what is allowed',
     '''A frozen dictionary accepts only its declared keys, whether they come
     by construction or by item assignment, and raises a key error for any
     other without changing; it always holds exactly the declared keys, those
     not given being filled with a fresh deep copy of the declared default,
     and setting an attribute on it is refused. A validating dictionary stores a value under a key
     which has a validator only if that validator accepts it, and construction
     from a mapping, from pairs or from keywords goes through the same
     checks.''',
     '''every subset of keys, every value, every way of construction and item
     assignment''',
     'tests sample a few keys; the guard must hold for any key and value',
     ['datastructures/__init__.py', 'datastructures/stats.py',
      'datastructures/p2p.py'],
     [('SetItemDict', 'datastructures/__init__.py'),
      ('FrozenDict', 'datastructures/__init__.py'),
      ('ValidatingDict', 'datastructures/__init__.py')],
     over=('inputs', 'histories'),
     note='any key, any value; construction and item assignment (update and '
     'setdefault of the built-in dict are outside the statement)')

prop('C23', 'Masks are sets of 256 bits and match by digest',
     '''A mask is 32 bytes, its set of bit positions (0 to 255), its number,
     its binary text and its bytes always denote the same value, and building
     a mask from any set of positions or from its dictionary form gives that
     value back. A mask matches an address exactly when no bit of the mask is
     set in the SHA-256 digest of the address, so a mask with more bits never
     matches anyone that the smaller one does not. Increasing or decreasing by
     n adds or removes exactly n bits (stopping at 256 and at none) without
     touching the others and refuses a negative n, and a generated mask has
     exactly the requested number of bits, which for a task is the least that
     brings the expected number of workers down to the wanted one.''',
     'all 2^256 masks, all addresses, all bit counts, all random choices',
     '''tests use a handful of random masks; the algebra must hold for all
     masks and every outcome of the random choice''',
     ['datastructures/masking.py'],
     [('Mask', 'datastructures/masking.py')],
     note='all masks and addresses; sha256 and random.sample are assumed '
     'contracts')

prop('C33', 'The serializer wraps every failure and never alters values',
     '''Whatever goes wrong while encoding or decoding, the only exception
     that comes out is a serialization error with the original as its cause,
     and when nothing goes wrong the result is passed on unchanged and the
     underlying function is called exactly once with the given arguments.
     Plain values (nothing, booleans, integers, text, bytes, and lists and
     dictionaries of them) survive encoding and decoding unchanged, and
     different plain values never get the same encoding. The library's
     exception classes form the documented hierarchy, so that catching the
     general one catches every special one and no unrelated one.''',
     'every value, every function and every exception it can raise',
     'tests feed one bad input; wrapping must hold for any failure',
     ['serializer.py', 'exceptions.py'],
     [('wrap_error', 'serializer.py'), ('hierarchy', 'exceptions.py')],
     note='any function outcome; cbor is an assumed contract (injective, '
     'invertible on plain values)')


BASE = [('Message.serialize', 'message/base.py'),
        ('Message.deserialize', 'message/base.py'),
        ('Message.deserialize_with_header', 'message/base.py')]

prop('C03', 'Only messages with a sound header get in',
     '''Data is taken for a message only if it is longer than a header and a
     signature, its type number is known and its timestamp lies strictly
     between the limits of the protocol; otherwise it is refused with a
     message error (a header error for the latter two). The class, type,
     timestamp, encryption flag and signature of the resulting message are
     exactly those in the data. What follows the signature is decrypted
     exactly once if the flag says so and never otherwise; a message error
     raised by decryption comes through as it is, and any other failure of
     it as a decryption error.''',
     '''every byte string as data, every type number and timestamp, every
     outcome of decryption''',
     '''tests feed a few broken headers; the gate must hold for any bytes''',
     ['message/base.py', 'settings.py', 'exceptions.py'],
     BASE + [('Message.deserialize_header', 'message/base.py')],
     note='any bytes for the gate and the header; decryption for seven '
     'classes with any contents and every kind of outcome')

prop('C04', 'Only fresh messages are accepted when freshness matters',
     '''A timestamp is fresh exactly when it is at most ten minutes behind and
     at most five minutes ahead of the clock at that moment, to the
     microsecond; an older one is refused as too old, a later one as from the
     future, and anything that is not a time at all with a timestamp error.
     Freshness is judged from the header before decryption, and by default;
     when it is not asked for messages of any age are accepted.''',
     'every timestamp, every time on the clock, every class',
     '''tests try a few offsets with a frozen clock; the window must be exact
     at every clock and timestamp''',
     ['message/base.py', 'settings.py'],
     BASE + [('verify_time', 'message/base.py')],
     over=('inputs', 'histories'),
     note='clock and timestamps symbolic, microsecond exact; datetime is an '
     'assumed contract')

prop('C05', 'A received message is from who it is said to be',
     '''When the receiver names the key of the sender, a message of a signed
     class is accepted exactly when its signature is that of this key for
     exactly its type, timestamp and contents; otherwise it is refused as
     badly signed, and with a key of a wrong length always, as a bad key.
     Whatever the signature bytes are, a message accepted this way also
     verifies for the key afterwards and one refused does not. The unsigned
     classes, and messages received without naming a key, are not
     verified.''',
     '''every class, all contents, all pairs of keys, all 65-byte
     signatures''',
     '''tests sign with one fixed key; no key, signature or content may slip
     through''',
     ['message/base.py', 'cryptography/__init__.py'],
     BASE + [('Message.verify_signature', 'message/base.py')],
     note='all keys, contents and signatures; the elliptic curve functions '
     'are assumed contracts (ideal signatures)')

prop('C06', 'Signing happens once, on sending, by the sender',
     '''Serializing an unsigned message with a private key puts the signature
     of its type, timestamp and contents by that key on the wire and in the
     message, and changes nothing else; the message then verifies for the
     sender's public key and for no other. Without a key, and for the unsigned
     classes, the place of the signature is filled with zeros. An existing
     signature is sent along as it is, and asking to sign a signed message is
     refused leaving it as it was.''',
     'every class, all contents, all keys, with and without encryption',
     'tests use a fixed message and key; it must hold for all',
     ['message/base.py', 'cryptography/__init__.py'],
     [BASE[0], ('Message.sign_message', 'message/base.py')],
     note='all contents and keys; ECDSA is an assumed contract')

prop('C07', 'A signature covers everything in a message',
     '''The hash that is signed is made from the type, the timestamp and the
     encoded contents of the message as they are at that moment, and of the
     protocol version too for the greeting message. Two messages have the
     same hash only if they have the same type, timestamp, version and
     contents down to the signatures and fields of included messages, so no
     part can be altered under a signature. It does not depend on the
     signature itself nor on the encryption flag.''',
     'every class and every pair of messages with any contents',
     '''tests compare a few hashes; that nothing is left out must hold for
     any contents''',
     ['message/base.py'],
     [('Message.get_short_hash', 'message/base.py'),
      ('Message.slots', 'message/base.py')],
     note='SHA-1 and the encoding are assumed injective; lists of structured '
     'parts have any length, and are compared once more, element by element, '
     'up to two elements (labelled bounded)')

prop('C08', 'Included messages are of the documented class, or refused',
     '''A field that includes messages holds, once received, messages of
     exactly the documented class (a list of them where, and only where, one
     is documented, each in its place), or nothing where that is documented,
     and each included message keeps its own header and signature as sent. An
     included part that is not a header, signature and fields, a list instead
     of a message or the reverse, and nothing where it is not allowed are
     refused with a field error that names the field. On sending, too,
     anything but messages of the documented class is refused so, and a
     message is included with its own header, signature and fields.''',
     '''every field that includes messages, every value of every type in its
     place, lists of any length''',
     '''tests try one wrong class for some fields; the guard must hold for any
     value in any field''',
     ['message/base.py', 'message/tasks.py', 'message/concents.py',
      'message/p2p.py'],
     [('Message.deserialize_message', 'message/base.py'),
      ('Message.serialize_message', 'message/base.py'),
      ('MessageSlotDefinition', 'message/base.py')],
     note='all fields that include messages; lists by induction, any length')

prop('C09', 'Enumerated fields hold published values only',
     '''A field with an enumerated set of values is accepted on reception
     exactly when it holds nothing or one of the published texts, and then
     holds nothing or the member of that text; any other value of any type is
     refused with a field error that names the field and carries the value.
     Each member is sent as its published text, texts and members correspond
     one to one, and a task failure without a reason is a computation
     error.''',
     'every enumerated field, every value of every type',
     '''tests try a wrong text for some fields; all values of all types must
     be told apart''',
     ['message/base.py', 'message/tasks.py', 'message/concents.py',
      'datastructures/__init__.py'],
     [('Message.deserialize_slot', 'message/base.py'),
      ('StringEnum', 'datastructures/__init__.py')],
     note='all fourteen enumerated fields, any wire value')

prop('C10', 'A new message holds what it was given; equality is of contents',
     '''A message made with some of its fields given holds exactly those
     values (an empty list standing for any empty value where lists are
     expected), the documented default (usually nothing, fresh for every
     message) in all others, the given header and signature or else its own
     type, the current time and no signature, and refuses fields it does not
     have. Two messages are equal exactly when they are of the same class with
     the same type, time, signature, protocol version and fields, whether they
     come encrypted or not, and no message equals anything else.''',
     'every class, every subset of fields with any values, every pair of '
     'messages',
     'tests build a few messages with fixed values',
     ['message/base.py', 'message/tasks.py', 'message/p2p.py',
      'message/concents.py'],
     [('Message.__init__', 'message/base.py'),
      ('Message.__eq__', 'message/base.py')],
     note='each field alone and all together; equality of the classes that '
     'hold lists of structured parts only against copies')

prop('C12', 'Task messages are accepted from the documented parties only',
     '''A message about a task is taken as properly signed exactly when its
     signature is that of one of the parties documented for its class (the
     provider or the requestor named in the task it is about, or Concent,
     given its key), unaltered since; otherwise it is refused as badly signed,
     with the message. Concent's key plays no part where Concent is none of
     these parties. A task to compute also needs the requestor's valid
     signature of the demand (task header) within the offer.''',
     '''every class of task messages, every three parties, every signer, every
     65 bytes as signature, every contents''',
     '''tests sign with the right key and a wrong one for some classes; any
     key, signature and contents must be decided rightly''',
     ['message/tasks.py', 'message/concents.py', 'message/base.py',
      'cryptography.py', 'datastructures/tasks.py'],
     [('TaskMessage.validate_ownership', 'message/tasks.py'),
      ('TaskToCompute.validate_ownership', 'message/tasks.py'),
      ('TaskHeader.verify', 'datastructures/tasks.py'),
      ('EXPECTED_OWNERS', 'message/tasks.py, message/concents.py')],
     note='all 24 classes of task messages, each about a task given the '
     'shortest way; ECDSA as an assumed contract')

prop('C13', 'A chain of task messages holds only if every link does',
     '''A message about a task is accepted with all it includes exactly when
     it and every task message included in it, at any depth, is properly
     signed by a party documented for its own class; a single link signed by
     anyone else makes it refused as badly signed. When the provider's or
     requestor's key is given too, it must be that of the task the message is
     about, else the message is refused as a mismatch of roles; good roles do
     not make up for bad signatures.''',
     '''every class of task messages with all it may include, every link,
     every signer, every pair of expected keys''',
     '''tests break the outermost signature of a few classes; each of the
     links at any depth must count''',
     ['message/tasks.py', 'message/concents.py'],
     [('TaskMessage.validate_ownership_chain', 'message/tasks.py'),
      ('TaskMessage.verify_owners', 'message/tasks.py')],
     note='all classes with all that they may include present, each of the '
     'links in turn')

prop('C14', 'A task message tells which task and parties it is about',
     '''The task, the task and subtask identifiers and the provider's and
     requestor's identifiers of a message about a task are those of the task
     to compute included in it, at any depth, the documented included
     messages being asked in their order when some are missing; a message that
     includes none of them tells nothing. The provider's key and address are
     those of the offer, the requestor's address is that of its Ethereum
     key, and the task identifier of an offer that of the demand.''',
     '''every class of task messages with any of the optional included
     messages present or missing, every contents''',
     '''tests look at a few chains made by factories, all of whose links are
     about the same task; here each included task is a different one''',
     ['message/tasks.py', 'message/concents.py', 'utils.py'],
     [('TaskMessage._get_task_value', 'message/tasks.py'),
      ('TASK_ID_PROVIDERS', 'message/tasks.py, message/concents.py'),
      ('TaskToCompute.task_id', 'message/tasks.py'),
      ('pubkey_to_address', 'utils.py')],
     note='all 24 classes, all combinations of optional parts, identifiers '
     'not empty')

prop('C15', 'A task to compute is accepted from its owner only',
     '''A received task to compute is accepted exactly when the owner of its
     Ethereum key signed the very offer it includes (any change in any field
     or the time of the offer counts, who signed the offer does not) and both
     its task and subtask identifiers are marked for its requestor. A
     signature by anyone else, of anything else or a missing one is refused
     as a bad signature, an identifier of any other kind with a field error
     that names it and carries the value. Such a signature cannot be made
     without the Ethereum key in place.''',
     'every offer, every pair of keys, every 65 bytes, every text as '
     'identifier, every changed field',
     'tests try one wrong signature and one wrong identifier',
     ['message/tasks.py', 'idgenerator.py', 'cryptography.py',
      'message/base.py'],
     [('TaskToCompute.deserialize_with_header', 'message/tasks.py'),
      ('TaskToCompute.verify_ethsig', 'message/tasks.py'),
      ('TaskToCompute.validate_taskid', 'message/tasks.py'),
      ('check_id_hex_seed', 'idgenerator.py')],
     note='any contents; ECDSA and UUID parsing as assumed contracts')

prop('C16', 'Identifiers are marked for whom they are generated',
     '''An identifier generated for a seed is a UUID whose last six bytes are
     the beginning of the seed (padded in front when the seed is shorter), it
     passes the check for that seed, and for another one exactly when both
     begin alike; seeds in hexadecimal form are treated the same. An
     identifier generated from another passes for the same seeds as that one.
     Any text passes the check exactly when it is a UUID with the mark, and
     no two generated identifiers are equal.''',
     'every seed and every text',
     'tests use one key and one hundred generated identifiers',
     ['idgenerator.py', 'utils.py'],
     [('generate_id', 'idgenerator.py'),
      ('check_id_seed', 'idgenerator.py'),
      ('seed_to_node', 'idgenerator.py')],
     note='any seed of at least six bytes, and all shorter lengths; the '
     'uuid module as an assumed contract')

prop('C18', 'Acceptances, rejections and verdicts have to make sense',
     '''An acceptance of results is sensible exactly when the time of payment
     is not after the message's and at most 15 minutes before it. A rejection
     is exactly when it has a reason, an included failure to get the results
     is about the same task and subtask, and is there when it is the reason;
     from a requestor, moreover, the reason is one of those documented with or
     without Concent taking part. A verdict is exactly when both tasks to
     compute it includes are equal in everything; whatever is not sensible is
     refused with a validation error, on reception as well, and other task
     messages have no such rules.''',
     'all times, reasons, identifiers and every difference between tasks',
     '''tests try a few offsets of time and single reasons; the edges and
     combinations must all be right''',
     ['message/tasks.py', 'message/concents.py', 'settings.py'],
     [('SubtaskResultsAccepted.is_valid', 'message/tasks.py'),
      ('SubtaskResultsRejected.is_valid', 'message/tasks.py'),
      ('SubtaskResultsRejected.is_valid_for_requestor', 'message/tasks.py'),
      ('VerdictReportComputedTask.is_valid', 'message/concents.py'),
      ('TaskMessage.deserialize_with_header', 'message/tasks.py')],
     note='times below 2**40; identifiers not empty')

prop('C22', 'Signed task headers verify for the signer and unaltered only',
     '''A task header signed by a key verifies for the public key of that key
     and no other, wherever it was passed on to, in dictionary or encoded
     form, and an alteration of any part after signing makes it fail, while
     the signature itself is not part of what is signed. A missing signature
     or any bytes that are not a signature of the contents are reported as
     a bad signature.''',
     'every contents of every part, every pair of keys, any signature',
     'tests alter one part of one header',
     ['datastructures/tasks.py', 'cryptography.py',
      'datastructures/__init__.py'],
     [('TaskHeader.sign', 'datastructures/tasks.py'),
      ('TaskHeader.verify', 'datastructures/tasks.py'),
      ('TaskHeader.get_hash', 'datastructures/tasks.py')],
     note='each part altered in turn to any other value')

prop('C17', 'Promissory notes bind the payer, the payee, price and subtask',
     '''The signed contents of a promissory note are the deposit contract, the
     payer, the payee, the amount and the subtask in the form that contract
     expects, with the prefix of Ethereum messages. A signature counts as valid
     exactly when it was made by the payer over this very note: altering payee,
     amount, subtask or contract makes it invalid, nothing is no valid
     signature and anything that is not a triple is a type error. The notes of
     a task go from the requestor's address to the provider and to the deposit
     contract over the price of the task, all of them count only when each
     does, they stay valid when the task is sent, and that of a verification
     request goes from the provider to the deposit contract.''',
     'every address, amount, subtask, deposit contract and pair of keys',
     '''tests sign single notes with two keys; whoever holds a note relies on
     what exactly was signed by whom''',
     ['datastructures/promissory.py', 'message/tasks.py',
      'message/concents.py', 'utils.py'],
     [('PromissoryNote', 'datastructures/promissory.py'),
      ('PromissorySlotMixin', 'datastructures/promissory.py'),
      ('TaskToCompute.verify_all_promissory_notes', 'message/tasks.py'),
      ('SubtaskResultsVerify._get_concent_promissory_note',
       'message/concents.py')],
     note='amounts below 2**256; keccak, secp256k1 recovery as assumed '
     'contracts')

prop('C24', 'Encrypted for one recipient, read by nobody else, authentic',
     '''What is encrypted for a public key is exactly 113 bytes longer, and
     whoever holds the private key gets the same data back, whatever was
     encrypted before, for whom and how long ago; the form is that of RLPx, so
     that others can read and write it. Any other private key or shared
     data, and any alteration of the header, the initialisation vector, the
     data or the authentication tag is a decryption error; an altered
     ephemeral key or a message that is too short is refused as well, and
     nothing is ever decrypted that is not authentic. Every encryption has an
     initialisation vector of its own.''',
     'any data of any length, every pair of keys, every alteration of each '
     'part, every sequence of three encryptions',
     'tests decrypt two messages and try one wrong shared data',
     ['cryptography.py'],
     [('ECIES.encrypt', 'cryptography.py'),
      ('ECIES.decrypt', 'cryptography.py'),
      ('ECIESKeyManager', 'cryptography.py')],
     note='AES-CTR, HMAC-SHA-256, SHA-256 and ECDH as ideal functions')

prop('C25', 'Signatures verify for their maker and their data only',
     '''A signature has 65 bytes and verifies for the public key of the private
     key that made it and for the same data, and for nothing else; whatever
     else is given as signature is reported as an invalid one, and a public
     key that has not 64 bytes as an invalid key. What is signed is the
     SHA3-256 hash of the data (of text in UTF-8). A key object has the public
     key that belongs to its private key and signs and verifies the same way,
     one made without a private key has a valid new one, and what is no valid
     private key of 32 bytes is refused.''',
     'any data and text, every pair of keys, anything given as signature or '
     'key',
     'tests sign one text with one key and alter one letter',
     ['cryptography.py'],
     [('ecdsa_sign', 'cryptography.py'), ('ecdsa_verify', 'cryptography.py'),
      ('ECCx', 'cryptography.py'), ('privtopub', 'cryptography.py')],
     note='secp256k1 as an ideal signature scheme; the OpenSSL based base '
     'class of key objects as an assumed contract')

prop('C26', 'Only compatible protocol versions greet each other',
     '''A greeting carries the version of the program that made it, at the end
     of the message and whatever happens later, and the receiver accepts it
     exactly when that version has the same major and minor number as its own
     and is not a prerelease of the first of that series, unless it is the very
     version of the receiver. Everything else, readable or not, is reported as
     a version mismatch, before the contents are looked at, which another
     version may encode in ways unknown. Other messages do not depend on
     versions.''',
     '''every pair of versions with numbers up to a million and with or
     without prerelease and build; any text as version''',
     'tests use the version of the moment and its neighbours; prereleases and '
     'first releases are where ranges go wrong',
     ['message/base.py'],
     [('verify_version', 'message/base.py'),
      ('Hello.deserialize_with_header', 'message/base.py'),
      ('Hello.serialize', 'message/base.py')],
     note='prerelease and build parts from a fixed selection; ordering of '
     'versions as documented by semantic_version')

prop('C27', 'Both sides compute the same deadlines, deposits and delays',
     '''The time allowed for a download is a minute and, rounded up to whole
     seconds, what the transfer takes at the given rate in KiB per second (48
     unless given): never less for more data, and never more for a higher
     rate. The time for the verification of a subtask is sixteen minutes,
     three downloads of the result and half of the time between the start of
     the task and its deadline. The deposits required and suggested are two
     and four times the price for requestors, and one and four times for
     providers, exactly, and only a forced report of a computed task is
     delayed before it is sent.''',
     '''all sizes up to 2**50 bytes, rates up to 2**20 KiB/s, times, deadlines
     before and after the start, and prices of any size''',
     'tests check a few sizes and one subtask; rounding and exactness for '
     'every size and price cannot be sampled',
     ['helpers.py', 'constants.py'],
     [('maximum_download_time', 'helpers.py'),
      ('subtask_verification_time', 'helpers.py'),
      ('requestor_deposit_amount', 'helpers.py'),
      ('provider_deposit_amount', 'helpers.py'),
      ('MSG_DELAYS', 'constants.py')],
     note='sizes up to 2**50, where a division of floats rounded up is exact')

prop('C28', 'Whatever arrives is a message or a message error',
     '''Whatever bytes a peer puts behind a well formed header and signature
     of any message type, reception gives a message or fails with a message
     error, never in another way: whatever is encoded instead of the fields,
     whatever the value of a field is, if fields are missing, and whatever is
     in the place of included messages, nodes, task headers, task definitions
     and files.''',
     '''every byte string as contents of every message without included
     structures, and every value of every field of the others''',
     'tests try some dozens of malformed messages; a peer can send anything',
     ['message/base.py'],
     [('Message.deserialize', 'message/base.py'),
      ('Message.deserialize_with_header', 'message/base.py'),
      ('Message.deserialize_slot', 'message/base.py')],
     note='several odd fields at once, and odd values deep within included '
     'structures, are searched at random only (labelled bounded)')

prop('C29', 'Two key holders exchange messages, and nobody interferes',
     '''A message of any class, signed with the key of a sender and encrypted
     for a recipient, is received by that recipient with the same contents
     and a signature that can be shown to others. Whoever has another key
     gets a decryption error unless the class is one sent in clear; whoever
     expects another sender gets an invalid signature unless the class is one
     not signed, and so does whoever receives other contents or another time
     than was signed. Without the key of a recipient a message is sent in
     clear, without a key of its own a sender does not sign; a message can be
     sent to several recipients and is signed once only.''',
     '''every message class, any contents, any keys of the sender, the
     recipient and a third party, every combination of keys given and not
     given''',
     '''tests exchange single messages between two fixed keys; confidentiality
     and authenticity are statements about all keys and all alterations''',
     ['shortcuts.py', 'message/base.py', 'cryptography.py'],
     [('dump', 'shortcuts.py'), ('load', 'shortcuts.py'),
      ('Message.serialize', 'message/base.py'),
      ('Message.deserialize', 'message/base.py')],
     note='encryption and signatures as ideal functions; alteration of '
     'contents and time for some classes without included structures')

prop('C30', 'Nodes and peers are told, compared and completed truly',
     '''What is not known about the public address and ports of a node is
     completed with what is known about the private ones, whatever is known
     is kept, and doing it again changes nothing. A node is a super node
     exactly if both addresses are known and equal. Nodes are equal exactly if
     all their values are, also after a way over the wire, comparing one with
     anything else is an error, and no two share a list. A peer has exactly a
     valid address, a valid port and a node, at any time, and its wire form
     tells all of them and makes an equal peer.''',
     '''all values of all fields, given, missing or None; any value for an
     address, port or node of a peer''',
     'tests try a few addresses; which fields are completed or kept depends on '
     'each combination of known and unknown ones',
     ['datastructures/p2p.py', 'datastructures/__init__.py'],
     [('Node.update_public_info', 'datastructures/p2p.py'),
      ('Node.is_super_node', 'datastructures/p2p.py'),
      ('Node.__eq__', 'datastructures/p2p.py'),
      ('Peer', 'datastructures/p2p.py')],
     note='addresses given as numbers or bytes are not covered')

prop('C31', 'Signed copies leave the original as it was',
     '''Copying and signing an unsigned message of any class gives another
     message with the same header, contents and hash and with a valid
     signature of the given key, and the original remains unsigned and
     unchanged, also if the copy is changed later; a message that is signed
     already is returned itself, with its signature, whoever made that.
     Hexadecimal forms, 32-byte forms of UUIDs and addresses of public keys
     are the same however their argument is given, and lose nothing.''',
     '''every message class, any contents, keys and signatures; any bytes,
     texts, UUIDs and public keys''',
     'a test copies one greeting message; what is shared between a copy and '
     'its original shows up later and elsewhere',
     ['utils.py', 'message/base.py'],
     [('copy_and_sign', 'utils.py'), ('encode_hex', 'utils.py'),
      ('uuid_to_bytes32', 'utils.py'), ('pubkey_to_address', 'utils.py')],
     note='signatures and keccak as ideal functions')

prop('C32', 'A file transfer token tells its operation and its files',
     '''A token is for an upload or a download exactly as its operation says,
     also after reception. For each category it tells the first of its files of
     that category, or that there is none. A received file has the path,
     checksum and size that were sent, and a category given by its published
     name; any other category is a field error about it. A file always has
     exactly these four values, with the published defaults, and
     a refused change leaves it as it was.''',
     '''any path, checksum, size and any value as category; tokens with up to
     four files for the choice of a file''',
     'tests use one token with one or two files',
     ['message/concents.py'],
     [('FileTransferToken.deserialize_slot', 'message/concents.py'),
      ('FileTransferToken.get_file_info', 'message/concents.py'),
      ('FileInfo', 'message/concents.py')],
     note='lists of files of any length are covered up to three or four '
     'files, which is labelled as a bound')

prop('C34', 'Numbers and lists in received messages are sensible',
     '''The number of subtasks a provider wants is received only as a whole
     number of at least one, its expected CPU usage only as one of at least
     zero or as nothing, the price and the size of a task to compute only as
     whole numbers, wherever in the message they are; any other value is
     refused with a field error that names the field and carries the value,
     and accepted ones are kept as they are. Whether Concent takes part is
     always told by true or false, false unless told. Peers and task headers
     are received only as a list, each element in its place and sent on the
     same, and a single one that is not valid (one of its parts is not, it lacks parts,
     or it is no such structure at all) makes the whole message refused with a
     field error that names the part.''',
     '''any encodable value in each of these fields; lists of any length with
     any good and any bad element anywhere''',
     'tests try one wrong value for some of the fields',
     ['message/tasks.py', 'message/p2p.py', 'validators.py'],
     [('WantToComputeTask.deserialize_slot', 'message/tasks.py'),
      ('TaskToCompute.deserialize_slot', 'message/tasks.py'),
      ('ConcentEnabled.__init__', 'message/tasks.py'),
      ('Peers.deserialize_peer_list', 'message/p2p.py'),
      ('Tasks.deserialize_tasks', 'message/p2p.py')])
