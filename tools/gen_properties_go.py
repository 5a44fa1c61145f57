"""Properties of the node itself (Go)."""


def add(prop):
    T = 'common/trie/'
    prop('C21', 'The Merkle Patricia trie is an ordered map with a content-only root',
         'After any sequence of sets, deletions, snapshots, flushes, reloads, resets to an earlier snapshot and cache clearing, reads, old values, '
         'iteration order and prefix filters of the trie and of every snapshot are those of an ordered map from bytes to bytes, and the root hash is the one '
         'the Merkle Patricia rules give for that content, whatever the history. A proof of a key proves exactly its value against the '
         'root, and no altered, cut or foreign proof proves a different one. Once a root is in the database everything below it is, whatever write a crash '
         'follows; a failed flush is reported and can be repeated; and synchronising from another node accepts only the nodes of the root, in any order of arrival, and ends with the whole trie stored.',
         ['histories', 'inputs', 'crash_points', 'schedules'],
         'all operation sequences up to a depth over key families of different trie shapes, all crash points and failing writes of flushes, all arrival orders of synchronisation data, all corruptions of proofs',
         'The Go tests run fixed examples of set/get and one crash-free flush; shapes that split or merge extensions after a reload, partial flushes and delivery orders are combinatorial.',
         [T+'ompt/mpt.go', T+'ompt/branch.go', T+'ompt/extension.go', T+'ompt/leaf.go', T+'ompt/node.go', T+'ompt/hash.go', T+'ompt/mptforbytes.go', T+'trie_manager/manager.go', T+'cache/nodecache.go', 'common/merkle/builder.go'],
         [('set/delete/flush/prove of the node kinds', T+'ompt/branch.go, '+T+'ompt/extension.go, '+T+'ompt/leaf.go'), ('snapshot, reset, iteration', T+'ompt/mpt.go'), ('merkle builder', 'common/merkle/builder.go')],
         [('root', 'hash of the content', T+'ompt/mpt.go'), ('bucket', 'MerkleTrie bucket of the database', 'common/db/bucket.go')],
         ['Get/Set/Delete results', 'Hash()', 'Iterator()', 'GetProof()/Prove()', 'database content'])
    P = 'havah/hvh/'
    prop('C22', 'Issuance, planet rewards and funds of HAVAH keep every coin accounted for',
         'At each term the platform issues what the schedule says (reduced by 30 % every cycle, up to the limit) to the public treasury, and every planet which '
         'was registered before the term gets its share once, when a planet manager reports its work, with a subsidy of the hoover fund up to a tenth of its price a year and never '
         'beyond its price; company rewards, missed rewards, fees and the refill of the hoover fund go where the rules say, claims pay only the owner and at most what is unlocked, and '
         'removed planets leave their coins to the lost fund. After any history the total supply is the sum of all balances, the public treasury has exactly what it owes, '
         'events and queries tell what happened, and only the callers entitled to it (governance, planet managers, the NFT contract, owners) change anything.',
         ['histories', 'inputs', 'configurations'],
         'all block sequences up to a depth over families of operations, callers, revisions 0-7, terms and amounts, on the real chain',
         'The Go tests of the platform check single steps of the state with fixed numbers; sums that must hold over several terms, re-registered planets and partial claims need histories.',
         [P+'extension.go', P+'base.go', P+'context.go', P+'eventlog.go', P+'hvhstate/state.go', P+'hvhstate/planet.go', P+'hvhstate/planetreward.go', 'havah/chainscore_havah.go', 'havah/platform.go'],
         [('term start and end', P+'base.go (OnBaseTx, onTermStart, onTermEnd)'), ('work reports and claims', P+'extension.go'), ('planets, lost coins, managers', P+'hvhstate/state.go'), ('system score methods', 'havah/chainscore_havah.go')],
         [('extension state', 'term, reward, planet and manager variables', P+'hvhstate/state.go'), ('balances', 'accounts of the funds', 'service/state'), ('total supply', 'variable of the system account', P+'context.go')],
         ['receipts and event logs', 'system score queries', 'account balances', 'total supply'])
    prop('C23', 'The set of HAVAH validators follows from registrations, votes and terms',
         'From the first term which finds enough validators at revision 4 or later, each term starts with the main validators in order and then the enabled sub validators whose turn it is '
         '(with a BTP key where one is needed), up to the number set; a sub validator which misses more votes than allowed is disabled and replaced by the next in turn, its owner can '
         'enable it three times, the governance always. Unregistered validators leave the set at once and for ever, a new key replaces the old one in the set, no node ever has two owners or two places, '
         'and the parameters of the penalties change with a term only. Events and queries tell exactly what happened, only the governance and the owners change anything, '
         'and whatever the history the next block can be executed, with the same result on each node.',
         ['histories', 'inputs', 'configurations', 'fault_sequences'],
         'all block sequences up to a depth over families of operations, missed votes, callers and revisions 3-7, on the real chain',
         'The Go tests check single calls of the state; turns, penalties at the edge of a term, keys used before and lists that shrink need histories, and the order of replacement a comparison of executions.',
         [P+'decentralization.go', P+'base.go', P+'extension.go', P+'eventlog.go', P+'hvhstate/state.go', P+'hvhstate/validatorinfo.go', P+'hvhstate/validatorstatus.go', P+'hvhstate/networkstatus.go', 'havah/chainscore_havah.go'],
         [('choice at the start of a term, penalties', P+'decentralization.go'), ('registration, keys, enabling', P+'extension.go'), ('lists, votes, turns', P+'hvhstate/state.go')],
         [('validator variables', 'lists, info, status, node to owner, index', P+'hvhstate/state.go'), ('validator set', 'of the next block', 'service/state/validatorstate.go')],
         ['receipts and event logs', 'system score queries', 'next validators'])
    Q = 'service/contract/'
    prop('C24', 'Transactions and inner calls take effect as a whole or not at all',
         'A transaction which succeeds leaves exactly the changes, transfers of coins and events of its calls, in the order they were made, and one which fails leaves nothing but its fee; '
         'an inner call which fails leaves nothing, whatever its caller goes on to do, and a call made read-only changes nothing however deep. Coins never appear or '
         'get lost: they move from the sender to the receiver of a call which takes them, and the fee, steps used times the price, from the sender of the transaction to the treasury. '
         'No call uses more steps than it is given, what inner calls use is charged to their callers once, no transaction uses more than its limit or costs more than its sender has, and receipts '
         'tell the status, the steps, the price and the events exactly. Estimates use what the transaction would, and change nothing.',
         ['programs', 'inputs', 'histories', 'configurations'],
         'all programs up to a size over three contracts that call each other, all limits of steps, balances and prices around the boundaries, all blocks of transactions up to a length',
         'The Go tests run no contract at all; that state, events, coins and steps of nested calls agree for every place where a call can fail needs all places.',
         [Q+'callcontext.go', Q+'callframe.go', Q+'callhandler.go', Q+'transferhandler.go', Q+'transferandcallhandler.go', Q+'commonhandler.go', Q+'contractmanager.go', Q+'context.go',
          'service/transaction/transactionhandler.go', 'service/transition.go', 'service/txresult/receipt.go', 'service/state/worldstate.go', 'service/state/accountstate.go', 'havah/chainscore_havah.go'],
         [('frames, steps and events of calls', Q+'callcontext.go, '+Q+'callframe.go'), ('calls and transfers', Q+'callhandler.go, '+Q+'transferhandler.go'), ('fees', 'service/transaction/transactionhandler.go'), ('execution of blocks', 'service/transition.go')],
         [('world', 'accounts and their storage', 'service/state/worldstate.go'), ('frames', 'snapshot, steps, events', Q+'callframe.go'), ('receipts', 'status, steps, events', 'service/txresult/receipt.go')],
         ['receipts', 'what contracts read and are told', 'world state hash', 'estimates'])
    prop('C25', 'A transaction is executed at most once, and in its window of time',
         'No block which repeats a transaction of itself, of a block before it, finalized or not, or of any time ago is accepted, whoever proposes it and with whatever gaps of time between blocks, '
         'changes of the width of the window, restarts and crashes in between, and while the locators of earlier blocks are still being written; nor is a block with a transaction outside of the window '
         'of its time. Every other block is accepted. Executed transactions are found by their hash at their block and index, with their receipts, others are not.',
         ['histories', 'crash_points', 'inputs', 'configurations'],
         'all sequences of blocks, restarts, lost writes, crashes and widths of the window up to a length, then all executed transactions again',
         'The Go tests of the locators look at one order of calls with fixed times; the cache, the tracker of unfinalized blocks and the database hand over to each other at edges of time that only histories reach.',
         ['common/txlocator/manager.go', 'service/txidmanager.go', 'service/transition.go', 'service/tschecker.go', 'block/manager.go', 'block/blockv2handler.go'],
         [('locators in cache, tracker and database', 'common/txlocator/manager.go'), ('check of a block', 'service/transition.go'), ('window', 'service/tschecker.go')],
         [('locator cache', 'lists of recent blocks, latest time in the database', 'common/txlocator/manager.go'), ('locators', 'hash to block and index', 'common/db')],
         ['acceptance of blocks', 'transaction lookups', 'receipts'])
    T = 'service/transaction/'
    prop('C26', 'Only valid transactions get in, and the chain goes on',
         'Whatever clients, other nodes and proposers send: a transaction which is unsigned, altered after it was signed, not signed by its sender, malformed, of the wrong network, outside of the window of time, '
         'of a negative value or limit of steps, or which its sender cannot pay for (alone or after the earlier ones of the block) is neither put in a block nor accepted in one; '
         'valid ones are taken from clients, proposed, and accepted from other proposers. Base transactions are accepted exactly where the rewards require them and as they require, never from clients; patches only '
         'in the list of patches, other transactions only in theirs. Whatever gets in is executed with a receipt, and the next block can be proposed and is accepted by all nodes, over all terms, whatever the configuration of rewards and validators. Nothing makes a node panic.',
         ['inputs', 'histories', 'configurations'],
         'all values of a list for each field of each kind of transaction, all sequences of transfers of poor accounts, all layouts of blocks up to a length, all small configurations over some terms',
         'The Go tests check single fields of transactions in isolation; that clients, pools, proposers and verifiers agree for every kind of transaction and every field, and that the chain survives what gets in, needs all of them through the whole node.',
         [T+'transaction_v3.go', T+'transaction.go', T+'serialize.go', 'service/transactionlist.go', 'service/transactionmanager.go', 'service/transactionpool.go', 'service/transition.go', 'service/manager.go', 'service/tschecker.go',
          'service/platform/basic/platform.go', 'havah/base.go', 'havah/platform.go', 'block/manager.go', 'block/blockv2handler.go'],
         [('validity', T+'transaction_v3.go'), ('pool', 'service/transactionpool.go, service/transactionmanager.go'), ('check of a block', 'service/transition.go'), ('base transactions', 'havah/base.go, havah/platform.go')],
         [('pools', 'of normal transactions and patches', 'service/transactionpool.go'), ('world', 'balances, steps, rewards', 'service/state/worldstate.go')],
         ['acceptance by the node and in blocks', 'proposed blocks', 'receipts'])
    prop('C27', 'A block is taken exactly if it is the right next one with enough votes',
         'A node accepts a block, whoever sends it, exactly if it is the next one of its last block or of a block accepted on it, has the hashes of its parent, transactions, votes, next validators, the result, the bloom and the time which '
         'follow from the blocks before it, and shows signed votes of more than two thirds of the validators of its parent, each once and for just that block in that round, whose median time, later than the '
         'time of the parent, is its own. Any altered, cut or junk block or vote is refused without harm; the ID of a block binds all its contents. Of the blocks accepted only one of each height is finalized, only on the last one, and then found by height, ID and transaction as it was sent, '
         'also after a restart; those of other branches are gone. Transactions of a block are skipped only if more than a third of the validators show that they voted for no block at the next height in the same, late enough, round.',
         ['inputs', 'histories', 'configurations'],
         'all values of a list for each field, all bits of a block, all subsets and kinds of votes of up to 7 validators, all sequences of operations on a tree of blocks up to a length',
         'The Go tests try a few valid chains and single faults; that no altered block and no combination of votes is accepted, and every right one is, needs all of them.',
         ['block/manager.go', 'block/handlerv2.go', 'block/blockv2.go', 'block/transition.go', 'consensus/commitvotelist.go', 'consensus/votelist.go', 'consensus/signedbase.go', 'consensus/patch.go', 'consensus/message.go', 'common/crypto/signature.go',
          'service/state/validatorlist.go', 'service/txresult/logsbloom.go', 'service/manager.go'],
         [('check of a new block', 'block/manager.go, block/handlerv2.go, block/blockv2.go'), ('check of votes', 'consensus/commitvotelist.go'), ('tree of blocks, finalization', 'block/manager.go'), ('patches', 'consensus/patch.go')],
         [('blocks', 'finalized one and candidates above it', 'block/manager.go'), ('last height, headers by height', 'database', 'block/manager.go')],
         ['acceptance of blocks', 'IDs', 'lookups by height, ID and transaction'])
    E = 'consensus/consensus.go'
    prop('C28', 'Nodes never decide different blocks, and go on deciding',
         'Whatever the order, delay, loss and repetition of messages, whatever less than a third of the validators send, and wherever nodes crash and lose what they had not yet made durable: no node sends two different votes or proposals for a round, '
         'prevotes a block which it did not find valid or which is not proposed by the right one, precommits without two thirds of the prevotes, gives up what it precommitted unless another got two thirds of the prevotes since, '
         'or makes a block final without two thirds of the precommits of one round. So no two nodes ever have different blocks at a height. When messages arrive and the others agree, a node finalizes the block they agree on, '
         'and votes for and finalizes those of the next heights.',
         ['schedules', 'crash_points', 'histories'],
         'all sequences of events of one engine up to a length with a crash at each effect, all schedules of networks with some deviations, all votes of up to 7 validators in a model',
         'The Go tests follow a few scripts through the engine; that no order of messages and no crash makes it break its word needs all of them.',
         [E, 'consensus/voteset.go', 'consensus/blockpartset.go', 'consensus/wal.go', 'consensus/message.go', 'consensus/bpmcache.go', 'consensus/dsmlog.go'],
         [('steps and rounds', E), ('locks', E), ('counting of votes', 'consensus/voteset.go'), ('logs written before messages are sent', E)],
         [('state of a round', 'height, round, step, lock, proposal', E), ('logs', 'round, lock and commit log', 'consensus/wal.go')],
         ['messages sent', 'finalized blocks', 'double sign evidence against oneself'])
    prop('C29', 'Whatever peers send, a node survives, is not misled, and helps those behind',
         'A block which is cut into parts is put together from exactly its own parts, in whatever order and however often they arrive, to the same bytes; a part of another block, for another place, or with an altered proof is refused and not said to be there. '
         'Messages which are damaged, of the wrong kind, signed by another, or signed by a validator with odd values in any field, neither stop a node nor count as what they are not, and the network goes on deciding; nor do odd reports of what a peer has. '
         'A node which has decided tells one which is behind all votes and parts it lacks, whatever that has already, for blocks of any number of parts, also after it was started again; missed votes of a round, and of the round before, are told as well.',
         ['inputs', 'histories'],
         'all orders and single alterations of parts and proofs of small blocks, all single alterations and odd fields of messages in each situation where they decide, all subsets of what a node behind has',
         'The Go tests send well formed messages and a few bad ones; that no bit and no field of a message misleads or stops a node, and that no set of missing parts is left out, needs all of them.',
         ['consensus/partset.go', 'consensus/blockpartset.go', 'consensus/bitarray.go', 'consensus/message.go', 'consensus/votelist.go', 'consensus/syncer.go', 'consensus/signedbase.go', 'consensus/commitcache.go', E, 'common/trie/ompt/branch.go', 'common/trie/ompt/extension.go', 'common/trie/ompt/node.go'],
         [('parts and their proofs', 'consensus/partset.go'), ('checks of messages', 'consensus/message.go, consensus/votelist.go'), ('helper', 'consensus/syncer.go')],
         [('what peers have', 'sets of votes and parts', 'consensus/syncer.go'), ('parts of the block', 'which are there', 'consensus/partset.go')],
         ['survival', 'votes sent', 'blocks finalized by a node which was behind'])
    W = 'consensus/wal.go'
    prop('C30', 'A log gives back after a crash all that was made durable',
         'The logs in which a validator keeps its votes, locks and commits: wherever a crash cuts the writing, leaves zeros or a wrong byte in what was not yet durable, also within the change to a new file, the next start reads the records written, unaltered and in order, '
         'from the first which is kept to at least the last which was made durable. A damaged end is repaired, whatever crash interrupts the repair, without loss of what is before it, and what is written and made durable afterwards is found by the next start too. '
         'A wrong byte anywhere is noticed, costs nothing before it, and no more memory than the log takes. Old files are removed only as far as the limit of the size demands.',
         ['crash_points', 'histories', 'inputs'],
         'all sequences of operations up to a length, every byte at which the disk may end, every step of the repair, every byte of the record after it',
         'The Go tests cut a log at a few places; that no cut loses a synced vote, so that no restart makes a validator vote twice, needs all of them.',
         [W], [('frames with checksum', W), ('repair', W), ('rotation', W)], [('files of a log', 'numbered, the last is written', W)], ['records read at the next start'])
