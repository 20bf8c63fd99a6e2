"""The list of properties: source of properties.jsonl and MANIFEST.json (python3 spec/gen.py)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, state=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(), mech=mech,
                  technique=technique, note=note, state=state, na=na))


GUARD = 'guard dominance over an interprocedural, value-labelled graph of the MIR'
PROV = 'value provenance over the MIR'

# ---------------------------------------------------------------- flcrypto: Flos, conditions, signatures
prop('C01', 'A Flo verifies only if its whole history is signed',
     'Verifying a Flo succeeds only if its first condition is signed by itself, every later change of the condition is signed (over the Flo\'s id, the number of the change and the new condition) under the condition right before it, and the present data, version and number of changes are signed under the newest condition. '
     'No change of the condition can be skipped, reordered or left unchecked.',
     'inputs histories', 'every Flo, any history of updates and any forged content', 'The tests verify a few honestly made Flos and a handful of hand-made forgeries; the property is about every byte sequence an adversary can send.',
     'flcrypto/src/access.rs flmodules/src/flo/flo.rs', [('verification of a Flo walks its history', 'flmodules/src/flo/flo.rs')],
     GUARD, 'Sound over all paths of the analysed code for the stated guards; trusts the library models and the hash being collision resistant.')
prop('C02', 'Signed digests cover every field that determines a Flo',
     'The digest signed for the first condition, a change of the condition or the data depends injectively on every part it stands for: type, configuration, nonce and condition; Flo id, number and new condition; Flo id, data, version and number of condition changes. A signature for one kind of digest is never one for another kind.',
     'inputs', 'every pair of updates', 'Tests compare single examples of digests; injectivity is a statement over all pairs of inputs.',
     'flmodules/src/flo/flo.rs', [('digests of updates', 'flmodules/src/flo/flo.rs')], PROV + ' (which fields reach the hash, and through which encodings)', 'Structural: every field reaches the framed hash through injective encodings. Assumes collision resistance of SHA-256.')
prop('C03', 'A signature satisfies a condition only by its own rules',
     'A condition counts as fulfilled by a set of signatures only by its kind: a verifier if a signature stored under its id verifies over the digest, an n-of-t if at least n of its members are fulfilled, a badge if the badge\'s own condition is fulfilled, Pass always. Fail and a condition that is not available are never fulfilled.',
     'inputs', 'every condition tree, set of signatures and digest', 'Unit tests try a few small trees; the rule is recursive and quantifies over all trees and signature sets.',
     'flcrypto/src/access.rs', [('recursive check of a condition', 'flcrypto/src/access.rs')], GUARD, 'Sound over all paths of the recursive evaluator; recursion is used inductively.')
prop('C04', 'Only members of a condition add signatures to it',
     'Signing for a condition adds a signature only if the signer is one of those the condition names (anyone, if the condition is Pass), made over the digest that is asked for, and fails otherwise. Signatures of others are never stored.',
     'inputs', 'every signer, condition and digest', 'Tests use signers that are members; the refusal must hold for every other signer.',
     'flcrypto/src/access.rs', [('membership test before signing', 'flcrypto/src/access.rs')], GUARD, 'All paths that store a signature.')
prop('C05', 'A data update is accepted only with a signature over that update',
     'Updating the data of a Flo gives a new Flo only if the given signatures fulfil the condition they come with over exactly the new data and the next version; everything but data, its signature and its version stays the same.',
     'inputs histories', 'every Flo, every proposed update', 'Tests only update with right or one wrong signature.', 'flmodules/src/flo/flo.rs', [('update of data', 'flmodules/src/flo/flo.rs')], GUARD, 'All paths that mutate the Flo.')
prop('C06', 'A condition update is accepted only with both signatures',
     'Changing the condition of a Flo gives a new Flo only if the change is signed (over id, number of the change and new condition) and the data is signed again under the new number of changes. Exactly one change is appended, and the rest of the Flo stays the same.',
     'inputs histories', 'every Flo, every proposed change of its condition', 'Tests only exercise honest changes.', 'flmodules/src/flo/flo.rs', [('update of a condition', 'flmodules/src/flo/flo.rs')], GUARD, 'All paths that mutate the Flo.')
prop('C07', 'A condition matches a link only if they have the same structure',
     'A resolved condition is taken as the resolution of a stored condition link only if kind, identities, thresholds and all members agree recursively.',
     'inputs', 'every pair of condition and link', 'Tests compare a few equal pairs; the property is about all unequal ones.', 'flcrypto/src/access.rs', [('structural comparison', 'flcrypto/src/access.rs')], GUARD, 'All accepting paths.')
prop('C08', 'Version specifications accept exactly the versions they name',
     'A version specification accepts a version exactly when its meaning says so: minimal means at least, exact means equal, maximal means at most.',
     'inputs', 'all versions', 'Tests sample three numbers.', 'flcrypto/src/access.rs', [('acceptance of versions', 'flcrypto/src/access.rs')], PROV + ' and comparison operators', 'Exact for the enumerated variants.')
prop('C09', 'A signature verifies only strictly, over the whole message',
     'Every signature scheme accepts a signature only if the library\'s strict verification accepted it under the own public key for the whole message, and signing signs the whole message with the own key. A node\'s announcement is accepted only under the public key it announces.',
     'inputs', 'every message, key and byte sequence given as a signature', 'Tests check one right and one wrong signature per scheme.', 'flcrypto/src/signer_ed25519.rs flcrypto/src/signer_mldsa.rs flmodules/src/nodeconfig.rs', [('verification', 'flcrypto/src/signer_ed25519.rs')], GUARD, 'Trusts the cryptographic libraries.')
prop('C10', 'Identifiers are bound to the public key they stand for',
     'The id of a verifier is a domain-separated hash of its whole public key, a signer has the id and verifier of its own key, and a node\'s id is derived from its public key alone. An id set locally by hand never comes from the wire.',
     'inputs', 'every key, every message', 'Tests compare ids of a few keys made by the code itself, not of ones forged by others.', 'flcrypto/src/signer_ed25519.rs flcrypto/src/signer_mldsa.rs flmodules/src/nodeconfig.rs', [('id functions', 'flmodules/src/nodeconfig.rs')], PROV + ' and attributes of serialised types', 'Exact for the id functions.')
prop('C11', 'Private keys leave a node only through its own configuration',
     'No message between nodes or to the signalling server can carry a private key, no text output of a type prints one, and only the key\'s own type reads it.',
     'inputs histories', 'every message type and every use of a key', 'No test looks at what is sent or logged.', 'flmodules/src/nodeconfig.rs flcrypto/src/signer_ed25519.rs', [('types of messages', 'flmodules/src/network/signal.rs')], 'reachability in the type graph and field-access query over the MIR', 'Covers typed flows; bytes copied out of a key by hand inside its own type are out of reach.')
prop('C12', 'Hash inputs are framed: different inputs give different hash input',
     'Hashing several parts under a domain feeds the hash an unambiguous encoding: domain, number of parts and each part are length-prefixed and none is left out. Every id type that wraps the hash passes everything on, and kinds of conditions hash under distinct domains.',
     'inputs', 'every list of parts', 'Tests compare single hashes.', 'flarch/src/nodeids.rs flcrypto/src/access.rs', [('hash of parts', 'flarch/src/nodeids.rs')], GUARD + '; ' + PROV, 'Structural injectivity; assumes SHA-256 is collision resistant.')

# ---------------------------------------------------------------- the storage of the DHT
prop('D01', 'A stored Flo is only replaced by a newer version',
     'In the storage of a realm, the Flo stored under an id is only ever replaced by a Flo with that same id and a strictly higher data version; an older or equal version never overwrites it, whoever sends it and in whatever order. '
     'The storage of a realm that exists is never replaced by a new one. A lookup of a Flo or its cuckoos answers with the entry of the id asked for.',
     'histories inputs', 'every sequence of stored, received and evicted Flos', 'Tests store a handful of versions in a fixed order; rollback must be impossible for every order of arrival.',
     'flmodules/src/dht_storage/core.rs flmodules/src/dht_storage/intern.rs', [('version check when storing', 'flmodules/src/dht_storage/core.rs')], GUARD,
     'Sound over all paths of the functions touching the stored Flos; eviction is decided under D03.')
prop('D02', 'The accounted size of a realm is the size of what it stores',
     'At any time the size a realm accounts for is the sum of the sizes of the Flos (with their cuckoo links) it stores, and the index by distance holds exactly the stored Flos, each under its distance from the node\'s own id. '
     'Inserting, replacing and removing a Flo and adding a cuckoo link all keep both in step.',
     'histories', 'every sequence of insertions, updates, evictions and links', 'A drift of the account shows only after long histories, as evictions that come too early or never.',
     'flmodules/src/dht_storage/core.rs', [('size and distances of a realm', 'flmodules/src/dht_storage/core.rs')], 'pairing of effects (typestate) over an interprocedural graph of the MIR',
     'Every change of the map is paired on every path with the change of the total by the size of that very entry; arithmetic overflow is not considered.')
prop('D03', 'Eviction keeps the realm\'s own Flo and the space limit',
     'After storing a Flo, the accounted size of the realm is within its configured maximal space, or only the realm\'s own Flo is left. Eviction takes the Flo furthest from the node (the smallest depth) first, never takes the realm\'s own Flo, and always ends; Flos that can never fit are refused before anything is evicted, '
     'and storing is reported as successful only if the Flo is there in the end.',
     'histories inputs', 'every sequence and size of Flos', 'Tests fill one realm with a few Flos of one size.',
     'flmodules/src/dht_storage/core.rs', [('eviction of the furthest Flos', 'flmodules/src/dht_storage/core.rs')], GUARD,
     'Two known findings: the maximal size of a Flo and the list of owned Flos are configured, but never looked at. The order of eviction is decided by which orderings the choosing function uses.')
prop('D04', 'A node only stores and asks for realms it accepts',
     'A node creates the storage for a realm only if it accepts that realm (its list of realms contains it, or is empty), and asks its neighbours only for realms it accepts or already stores. '
     'A Flo is only ever stored in the realm it names, and a realm is only created from the Flo of that realm.',
     'inputs histories', 'every message from neighbours and every Flo', 'A remote node chooses the realms it announces and sends; tests send those the test author thought of.',
     'flmodules/src/dht_storage/intern.rs flmodules/src/dht_storage/core.rs', [('acceptance of realms', 'flmodules/src/dht_storage/core.rs')], GUARD,
     'Two known findings: Flos from other nodes are stored without being verified, and a realm-Flo need not be the realm it names.')
prop('D05', 'Answers carry what was asked for, to the one who asked',
     'Every answer to a request for a Flo, for cuckoos, for realms or for the list of Flos is sent to the node the request came from, and contains the stored value of the realm and id asked for. '
     'A local request is answered with the stored value of the id asked for, or routed to that id with its realm. Cuckoo links received are stored for the Flo they came with.',
     'inputs histories', 'every request, from every node', 'A mixed-up id or realm shows only with several realms and overlapping ids.',
     'flmodules/src/dht_storage/intern.rs', [('handling of routed and direct messages', 'flmodules/src/dht_storage/intern.rs')], PROV, 'Provenance of the destination, ids and contents of every answer.')
prop('D06', 'What the storage accepted survives a restart',
     'Whenever handling a message changed the stored Flos, realms or cuckoo links, all of them have been written to the data storage before the handling of that message ends, under the key from which they are read at start. Nothing is written before it has been read.',
     'crash_points histories', 'every message, every crash between messages', 'Tests seldom restart a node after each kind of message.',
     'flmodules/src/dht_storage/intern.rs', [('writing of the realms', 'flmodules/src/dht_storage/intern.rs')], 'effect analysis: every mutation is post-dominated by the write', 'A crash in the middle of one message, and errors of the data storage, are not covered. A Flo that is refused may leave a link to its parent that is written only with the next change.')
prop('D07', 'Links to cuckoos are kept, once each, under existing Flos',
     'A cuckoo link is only stored under a Flo that is in the storage, at most once, under the parent the cuckoo names; links are never dropped while their parent stays, in particular not when the parent is updated. '
     'Storing a Flo that names a parent sends the link to that parent\'s id, and a newly stored Flo is sent on to its own id.',
     'histories inputs', 'every sequence of Flos, updates and links', 'Tests link a cuckoo once and do not update its parent afterwards.',
     'flmodules/src/dht_storage/core.rs flmodules/src/dht_storage/intern.rs', [('links to cuckoos', 'flmodules/src/dht_storage/core.rs')], GUARD + '; ' + PROV, 'Sound over all paths of the functions touching the links.')
prop('R01', 'A disconnected or silent node is no longer routed to',
     'When a node disconnects, it is removed from the active and the waiting nodes of the routing, wherever it is listed, and all other nodes are kept. '
     'A node that sends nothing for the configured number of ticks is removed, too.',
     'histories fault_sequences', 'every sequence of connections, messages and ticks', 'A stale entry shows only when a message happens to be routed to it; tests use few nodes, which all end up in one bucket.',
     'flmodules/src/dht_router/kademlia.rs flmodules/src/dht_router/intern.rs', [('removal of nodes', 'flmodules/src/dht_router/kademlia.rs'), ('list of connected nodes', 'flmodules/src/dht_router/intern.rs')],
     GUARD, 'That the clock is ticked is not checked. Relies on R02 for a node being listed once.')
prop('R02', 'Buckets hold other nodes only, once, by their distance',
     'A node never enters its own id in its routing, never enters an id twice, and enters every other id in the bucket of its distance, or in the root bucket if there is no such bucket. '
     'A bucket other than the root bucket never has more active and waiting nodes than configured. Splitting and merging of buckets keeps all nodes that fit.',
     'histories inputs', 'every sequence of additions, removals and activations', 'The split and merge of buckets depends on the distribution of the ids.',
     'flmodules/src/dht_router/kademlia.rs', [('buckets by common prefix', 'flmodules/src/dht_router/kademlia.rs')], GUARD + '; ' + PROV, 'The bounds are those tested before each addition.')
prop('R03', 'Routed messages keep origin, key and content, and get closer',
     'A message routed by the DHT is forwarded with the origin, key and content it came with, only to its destination or to a node the routing chose for its key, which excludes the node it came from. '
     'It is delivered here only if it is for this node, or if there is no closer node, and delivered with its origin, last hop, key and content. Only nodes known to be active are chosen, and the answer to a request goes to its origin.',
     'inputs histories', 'every message, every state of the routing', 'Tests route along a few fixed topologies.',
     'flmodules/src/dht_router/intern.rs flmodules/src/dht_router/kademlia.rs', [('choice of the next hop', 'flmodules/src/dht_router/kademlia.rs'), ('forwarding and delivery', 'flmodules/src/dht_router/intern.rs')],
     PROV + '; ' + GUARD, 'That the chosen nodes are nearer than this node is decided by which buckets are read, not by comparing ids.')
prop('N02', 'The router tells the modules exactly who is connected',
     'The router announces a connection when, and only when, a node was not in its list of connected nodes and is added to it, and a disconnection when a listed node is removed. '
     'The list given to the modules is the list kept. A message of a node not listed makes it listed and announced first, and every message is handed on with its sender and content.',
     'histories schedules', 'every sequence of connections, disconnections and messages', 'Orders such as a message before the connection, or a double connection, come from the network.',
     'flmodules/src/router/broker.rs', [('list of connected nodes', 'flmodules/src/router/broker.rs')], GUARD + '; ' + PROV, 'Sound over all paths of the handler.')
prop('N01', 'Connections are announced when they begin and when they end',
     'A node is announced as connected exactly when a connection to it is established and there was none in either direction, and as disconnected exactly when its last connection ends. '
     'The list of connected nodes is updated with every change. Messages are handed on with the id of the node they came from and their content, and sent to the node they are for, which is connected to first.',
     'histories schedules fault_sequences', 'every interleaving of events of the two directions', 'Two simultaneous connections to the same node, of which one ends, depend on the timing of WebRTC.',
     'flmodules/src/network/intern.rs', [('state of the connections in both directions', 'flmodules/src/network/intern.rs')],
     GUARD + '; the questions about states are classified by the truth table of their paths', 'Sound over all paths of the handlers. That WebRTC reports every event is assumed.')
prop('S01', 'Only the holder of a key is registered under its id',
     'The signalling server registers a node only after it signed the challenge stored for its own connection with the key of the node-info announced, under the id which follows from that key. '
     'Every challenge is random, sent only to its connection, and removed by the registration. The id of a node-info cannot be set by the sender.',
     'inputs histories', 'every announcement, over every connection', 'Tests announce with correct signatures; forged or replayed ones are unbounded.',
     'flmodules/src/network/signal.rs flmodules/src/nodeconfig.rs', [('registration by challenge', 'flmodules/src/network/signal.rs'), ('id and signature of a node', 'flmodules/src/nodeconfig.rs')],
     GUARD + '; ' + PROV, 'The strength of the signature scheme and of the random generator are assumed.')
prop('S02', 'Connection setups only pass between the two nodes named',
     'The signalling server forwards a connection setup unchanged, only from a registered node which is one of the two it names, to the other one, and always if that one is registered. '
     'A node uses a setup only if it is named in it, for the other node and with the direction it has for this node; its own setups name itself as the initiator exactly for outgoing connections.',
     'inputs histories', 'every setup, from every connection', 'Tests use two nodes which name each other.',
     'flmodules/src/network/signal.rs flmodules/src/network/intern.rs flarch/src/web_rtc/messages.rs', [('forwarding of setups', 'flmodules/src/network/signal.rs'), ('the other node of a setup', 'flarch/src/web_rtc/messages.rs')],
     PROV + '; ' + GUARD, 'Sound over all paths of the handlers.')
prop('S03', 'A node that left the signalling server is forgotten',
     'When a connection to the signalling server ends, or sends nothing for the configured time, its challenge, registration, node-info and timer are removed, and those of no other connection. '
     'The time is started by the connection, renewed only by its messages, and counted down for every connection.',
     'histories fault_sequences', 'every sequence of connections, messages, timers and disconnections', 'The order of the end of a connection, of a second registration and of the timer varies.',
     'flmodules/src/network/signal.rs', [('removal of connections', 'flmodules/src/network/signal.rs')], GUARD, 'That the timer runs once a minute is not checked.')
prop('S04', 'The signalling server answers the one who asked, in bounds',
     'A request for the list of nodes is answered to the connection it came from, with registered nodes only, at most as many as configured. '
     'A registered node gets the configuration the server was started with; a realm that cannot be read stops the start. Only a connection that was replaced by another one of the same node gets an error.',
     'inputs configurations', 'every configuration and set of nodes', 'Tests use few nodes without a limit.',
     'flmodules/src/network/signal.rs cli/flsignal/src/main.rs', [('answers of the server', 'flmodules/src/network/signal.rs')], PROV + '; ' + GUARD, 'The limit applies to answers to requests only: the announcement of a new node to all others is not limited.')

prop('G01', 'An event is identified by everything it says',
     'The id of a gossip event is a hash over its category, source, time and text, such that two events which differ in any of them have different ids. '
     'Events are stored, and migrated from older versions, under their id only.',
     'inputs', 'every event', 'Which fields enter a hash, and whether two of them can run into each other, is not visible in samples.',
     'flmodules/src/gossip_events/core.rs', [('id of an event', 'flmodules/src/gossip_events/core.rs')], PROV, 'That SHA-256 has no collisions is assumed.')
prop('G02', 'A category of events keeps the newest ones, within its limits',
     'An event is kept if and only if it is not known yet and not too old, and the answer says so. A category with one event per source keeps the newest one of every source; a full category drops the oldest ones. '
     'Events of the same time are ordered the same way on every node, so that all nodes end up with the same ones.',
     'inputs histories', 'every event and every content of the store', 'Which of the stored events has to go depends on all of them.',
     'flmodules/src/gossip_events/core.rs', [('storage of events', 'flmodules/src/gossip_events/core.rs')], GUARD + '; order and count of the elements removed', 'Sound over all paths of the insertion.')
prop('G03', 'A new event is kept, announced and offered to the other nodes',
     'Every event that is new to a node is written to its storage, announced to the user once, and its id offered to all connected nodes except to where it came from and to its source. '
     'An event which is known or too old is neither announced nor offered.',
     'inputs histories', 'every event, from the user or from a node', 'Events arrive in any order and number, mixed with known ones.',
     'flmodules/src/gossip_events/intern.rs', [('handling of new events', 'flmodules/src/gossip_events/intern.rs')], GUARD + '; ' + PROV, 'Errors while encoding or writing the events are only logged by the code.')
prop('G04', 'Events missed are asked for, and requests for them are answered',
     'A node asks for every id it does not know, at the node which announced it, once until some time passed; after that time, and from every new node, it asks for the list of ids. '
     'Requests for the list and for events are answered to the node which asked, with all stored ids and with the stored events asked for.',
     'inputs histories fault_sequences', 'every sequence of messages, of which any may be lost', 'Which messages get lost is up to the network.',
     'flmodules/src/gossip_events/intern.rs flmodules/src/gossip_events/core.rs', [('exchange of events', 'flmodules/src/gossip_events/intern.rs')], PROV + '; ' + GUARD,
     'That all nodes converge follows only if messages arrive in the end; this part is not decided.')

# ---------------------------------------------------------------- random connections
prop('K01', 'A node is listed as connected or connecting, never as both',
     'The lists of connected and connecting nodes follow every event: a node which connected is only in the first, a node which disconnected, failed or dropped the connection is in none, a node chosen for a new connection is only in the second. '
     'Each node is listed once. New connections go only to known nodes which are in neither list, and never to the node itself.',
     'inputs histories', 'every sequence of events of the network and of the user', 'The tests follow a few connections; the order of events is up to the network.',
     'flmodules/src/random_connections/core.rs flmodules/src/random_connections/nodes.rs flmodules/src/random_connections/intern.rs',
     [('lists of nodes', 'flmodules/src/random_connections/nodes.rs'), ('reaction to events', 'flmodules/src/random_connections/intern.rs')], GUARD + '; ' + PROV, 'Per event, over all its paths; the invariant over histories follows by induction.')
prop('K02', 'Messages pass between the modules of connected nodes only',
     'A message of a module is sent to its destination, unchanged, exactly if that node is listed as connected; a message received is handed on with the node which sent it. '
     'Whenever the network reports a connection or disconnection, the list of the nodes connected now is announced. A node listed as connecting is asked to be connected, and the connection to a node that failed is closed.',
     'inputs histories', 'every message and every sequence of events', 'The list sent has to be the one after the last event, whatever came before.',
     'flmodules/src/random_connections/intern.rs', [('handling of messages', 'flmodules/src/random_connections/intern.rs')], GUARD + '; ' + PROV, 'A node first heard of by a message is announced with the next tick only.')
prop('K03', 'Connections which do not succeed are given up and replaced',
     'With every tick all nodes connected or connecting get older by one, and those connecting for connecting_timeout ticks or more are taken off the list. '
     'The number of connections tried is the number needed less those connected or connecting, never negative and never more than the nodes which are left.',
     'histories configurations', 'every tick, every number of nodes and every configuration', 'Giving up needs a silent node and many ticks.',
     'flmodules/src/random_connections/core.rs flmodules/src/random_connections/nodes.rs flmodules/src/random_connections/intern.rs',
     [('time', 'flmodules/src/random_connections/nodes.rs'), ('filling up', 'flmodules/src/random_connections/core.rs')], GUARD + '; ' + PROV, 'The formula for the number of nodes needed is not judged.')

prop('B01', 'Every message of a broker reaches all its subsystems, unchanged',
     'Every message a broker is given is handed unchanged to every translator, to every tap of its direction (except messages marked as not for taps) and, if incoming, to every handler other than the one it is marked to come from. '
     'The answers of all handlers become outgoing messages of the broker, marked with the handler they are from. Messages are removed from the queues exactly when all of this was done, and the broker works until the queues are empty.',
     'inputs histories configurations', 'every message, every set of subsystems and every state of the queues', 'Losing or repeating a message needs several subsystems, answers, or a full queue at a certain time.',
     'flarch/src/broker.rs', [('processing', 'flarch/src/broker.rs')], 'order and completeness of the loops over queues and subsystems; ' + PROV, 'The order between different subsystems is not judged; futures of handlers which never end are out of reach.')
prop('B02', 'Linked brokers forward each message once, in the right direction',
     'A message is translated for a linked broker only if this broker is not on the trail of the message, and goes on with that trail and this broker added. '
     'Each translation registered is applied to the messages of its kind, and what it gives is sent to the queue (in or out) of the other broker it was registered for. Linking two brokers registers both directions.',
     'inputs histories configurations', 'every message, trail and topology of links', 'Loops of brokers with more than two members are hardly ever built by tests.',
     'flarch/src/broker.rs', [('translation', 'flarch/src/broker.rs'), ('links', 'flarch/src/broker.rs')], GUARD + '; ' + PROV, 'A message whose trail has this broker already is still given to taps and handlers of this broker; this is how the code documents it and is not judged.')
prop('B03', 'Subsystems stay until removed or closed, and settling comes back',
     'Each subsystem is registered under a new number, which is told to the caller; only the subsystem with the number asked for, or one which returned an error, is removed, and every one which returned an error is. '
     'A broker handles messages as long as there is a copy of it. A request to settle is answered in every case, after all linked brokers which were not asked yet have settled.',
     'histories schedules', 'every sequence of additions, removals, copies and settles', 'Needs failing subsystems, dropped copies or rings of linked brokers.',
     'flarch/src/broker.rs', [('registration', 'flarch/src/broker.rs'), ('settling', 'flarch/src/broker.rs')], GUARD + '; ' + PROV, 'Settling is judged per broker; that two brokers which settle each other at the same time wait for ever is a known finding.')
prop('W01', 'A WebSocket connection is known by one number until its end is told',
     'Each connection a WebSocket server accepts gets a number no other connection had; it is announced, with this number, once it can be used. Every text read from it is passed on unchanged under this number, and its end – closed by either side, failed, or the stream over – is told exactly once, as the last thing about it. '
     'Texts to send and closings only go to the connection with the number given, and a connection on which sending fails is closed.',
     'inputs histories schedules', 'every sequence of connections, texts, failures and closings', 'Needs closed or failed connections among others, which no test has.',
     'flarch/src/web_rtc/libc/web_socket_server.rs', [('connections', 'flarch/src/web_rtc/libc/web_socket_server.rs')], GUARD + '; ' + PROV, 'The handshake with a new connection is awaited before the next one is accepted; this is not judged. The browser has no server.')
prop('P01', 'A text sent to another node arrives whole and unchanged, or not at all',
     'A text is sent as one packet holding all of it, or as several packets which have the same new id, successive pieces of the text, the numbers of these pieces and how many there are. '
     'A receiver keeps each part under its id and number, in whatever order they come, and hands out the parts of an id, in the order of their numbers, once all of them are there; a packet alone is handed out at once. Packets are read in the format in which they are written.',
     'inputs schedules', 'every text, and every order of its packets', 'Tests send one text of letters and digits in at most two packets.',
     'flarch/src/web_rtc/node_connection.rs', [('splitting', 'flarch/src/web_rtc/node_connection.rs'), ('collecting', 'flarch/src/web_rtc/node_connection.rs')], PROV + '; ' + GUARD, 'Trusts serde to read back what it wrote in the same format, and chunks and concatenation to be inverse. Parts of a text whose other parts never come are kept.')
prop('P02', 'Texts for a node wait until a direction is open, then all go out',
     'A text for a node is queued, and the queue leaves only on a direction (incoming or outgoing) whose data channel is open, then whole, unchanged and in order; it leaves as soon as there is such a direction. '
     'A direction is open from its connection on, and is forgotten and reset when it ends or fails. What is told about a direction, and what is sent to it, concerns this very direction.',
     'histories schedules', 'every sequence of connections, endings, states and texts of the two directions', 'Tests hardly have two directions, and never a text between an ending and the next connection.',
     'flarch/src/web_rtc/node_connection.rs', [('queue', 'flarch/src/web_rtc/node_connection.rs'), ('states', 'flarch/src/web_rtc/node_connection.rs')], GUARD + '; ' + PROV, 'Whether the data channel delivers is up to WebRTC.')
prop('A01', 'The answer to a proxy request is the one of the asked node, in order',
     'A request goes, under a random number, to a connected node which accepts requests; its answer is only taken from this node, and ends with Done or Error. '
     'The header and the parts of the body are passed on unchanged, in the order they arrived, to the one who asked, who reads all the parts up to the end. '
     'Waiting for an answer leaves no tap behind.',
     'histories schedules', 'every sequence of requests and answers, of any nodes', 'The test has one proxy which is honest, and one request.',
     'flmodules/src/web_proxy', [('answers', 'flmodules/src/web_proxy/core.rs'), ('waiting', 'flmodules/src/web_proxy/broker.rs'), ('body', 'flmodules/src/web_proxy/response.rs')], GUARD + '; ' + PROV,
     'That the answer is the page itself is up to the proxy.')
prop('A02', 'A proxy answers the node which asked: header, body, end',
     'Every request for a page is served: the page asked for is fetched, and the answer goes to the node which asked, under the number of its request. '
     'The header comes first, then the whole body as it was fetched, and every answer ends with Done or Error, after the body.',
     'histories inputs fault_sequences', 'every request, every page and every error while fetching it', 'The test needs the internet, and fetches one short page.',
     'flmodules/src/web_proxy/intern.rs', [('serving', 'flmodules/src/web_proxy/intern.rs')], 'typestate of the task serving a request over its CFG; ' + PROV, 'What the HTTP client gives is taken as the page.')
prop('F01', 'A stored value is the last one written, also after a crash',
     'Getting a key gives what was last set, or the empty string if it was removed or never set, for all the files, temporary and browser storages; clones of a storage see the same values. '
     'A value in a file is replaced as a whole: at every crash point the file holds the old or the new value, and another key is never touched. '
     'A value which cannot be read is an error and not an empty one, so that it does not get overwritten, and no access gets lost because another module accesses the storage.',
     'crash_points histories schedules', 'every sequence of sets and gets, and every crash point in them', 'The tests write and read one value, and never crash.',
     'flarch/src/data_storage', [('files', 'flarch/src/data_storage/libc.rs'), ('temporary', 'flarch/src/data_storage.rs')], GUARD + '; ' + PROV,
     'The storages of browsers and node.js are not compiled for this target and are not looked at; that the file system renames atomically is taken for granted.')
prop('F02', 'What a node stored is not replaced because it cannot be read',
     'A node creates a new identity only if none is stored: if the stored configuration or keys cannot be read, it reports an error, and the stored ones stay. '
     'The values of modules which cannot be read are kept under another key before they are written again. '
     'The identity returned is the one stored, and a signing key is stored before it is used and never dropped.',
     'histories fault_sequences', 'every content of the storage, and all errors it can return', 'The tests start with an empty storage, and never with one which cannot be read.',
     'flnode/src/node.rs', [('configuration', 'flnode/src/node.rs'), ('storages', 'flmodules/src/dht_storage/intern.rs'), ('keys', 'flmodules/src/flo/crypto.rs')], GUARD + '; ' + PROV, '')
prop('V01', 'What is written is read back whole',
     'For all types with derived serialisation: all the data is written, the names written are the names read, what is left out is read as missing, and a field written in a special way is read in the same way. '
     'Each type is read in the format it is written in (YAML, JSON, MessagePack), and nothing is left out of values written by position. '
     'All the messages a module sends to other nodes are of a type this module reads.',
     'inputs programs', 'all values of all types which are stored or sent', 'Tests encode few values of few types, mostly the default ones.',
     'flmodules', [('types', 'flmodules/src/nodeconfig.rs'), ('messages', 'flmodules/src/router/messages.rs')],
     'enumeration of all derived Serialize/Deserialize implementations in the MIR (fields, names, skips, special ways), and of all calls of the format crates with their type arguments', 'That the serialisation crates keep the values they are given is taken for granted.')
prop('V02', 'What older versions of a node stored is taken over',
     'Every older version of a stored value is converted to the newest one: every field the older version holds is taken over unchanged, no element of a collection is left out, and every version is handled. '
     'The newest version is the one written, with the whole value; what is read ends up in the value it is read for, and categories which are not in the data stay as they are.',
     'inputs histories', 'all values of all older versions', 'Tests convert one small value of some of the versions.',
     'flmodules/src/gossip_events/core.rs', [('events', 'flmodules/src/gossip_events/core.rs'), ('configuration', 'flmodules/src/nodeconfig.rs')], PROV, 'The versions which are not in the code any more cannot be looked at.')
prop('E01', 'What other nodes send does not panic a node',
     'Whatever bytes or texts arrive (messages of nodes with newer versions, short keys and signatures, session descriptions, packets with any numbers), a node reads them or reports or ignores them: they never panic the task which handles them. '
     'A value which was read never decides whether an unwrap fails, an explicit panic is reached, or a position or a size exists.',
     'inputs', 'every message, text or key somebody else can write', 'The tests only send what the nodes themselves write.',
     'flmodules/src', [('messages', 'flmodules/src/router/messages.rs'), ('keys and signatures', 'flmodules/src/nodeconfig.rs'), ('packets', 'flarch/src/web_rtc/node_connection.rs'), ('ids', 'flarch/src/nodeids.rs')],
     'taint analysis from the readers of bytes and texts to everything which can panic; ' + PROV,
     'Overflows of arithmetic (they wrap in release builds), running out of memory or stack, and panics inside of the libraries are not looked at; the node\'s own key pair is taken as readable.')
prop('L01', 'A message to a key reaches the node closest to it',
     'In a network which does not change anymore, a message sent to a key ends at the node whose id is closest to the key, and a message to an id at this node, in a number of hops logarithmic in the number of nodes.',
     'histories schedules', 'every network, and every history of nodes joining and leaving', 'The tests route in some random networks.',
     'flmodules/src/dht_router', [('routing', 'flmodules/src/dht_router/kademlia.rs')],
     na='Whether the greedy routing ends at the closest node depends on which ids the buckets of all the nodes hold, a runtime quantity of the whole network; what every single node has to do for it (each hop is closer, never back, buckets by distance) is R01 to R03.')
prop('L02', 'A stored Flo spreads to the nodes closest to its id',
     'Once a Flo is stored by a node, all the nodes close to its id with enough space hold it, in its newest version, after finitely many synchronisations, and it stays there while nodes come and go.',
     'histories schedules fault_sequences', 'every history of stores, synchronisations, and nodes joining and leaving', 'The tests spread some Flos in small simulated networks.',
     'flmodules/src/dht_storage', [('synchronisation', 'flmodules/src/dht_storage/intern.rs')],
     na='Convergence quantifies over the unbounded histories of all the nodes together, and over timing; the static rules decide what each node does with each message (D01 to D07), not that enough messages are exchanged.')
prop('L03', 'The connections chosen at random connect all the nodes',
     'With the number of connections each node opens, the graph of all the nodes is connected with high probability, and churn keeps it so.',
     'histories configurations', 'every network of any size', 'The tests count connections in simulations.',
     'flmodules/src/random_connections', [('number of nodes', 'flmodules/src/random_connections/core.rs')],
     na='A probability over random choices of all the nodes; no rule over the source bounds it. The bookkeeping of the connections of one node is N01 and the other checks of random_connections.')
