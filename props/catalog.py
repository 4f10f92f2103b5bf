"""The properties: text for properties.jsonl and for MANIFEST.json."""
CAT = []

NA = []
TECH = 'contract-based deductive verification of the compiled real code (weakest-precondition/symbolic VCs over LLVM IR, loop summaries with induction, SMT)'


def prop(pid, title, statement, over, qtext, why, files, mech, level='proof', note='', technique=TECH, state=None, na=None):
    d = dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    CAT.append((d, level, note, technique))
    if na:
        NA.append((pid, na))


CUR = 'src/CryptoNoteCore/Currency.cpp'
FMT = 'src/CryptoNoteCore/CryptoNoteFormatUtils.cpp'
BIM = 'src/CryptoNoteCore/CryptoNoteBasicImpl.cpp'

prop('C01', 'Block reward follows the emission schedule and never exceeds the supply cap',
     'For every height, median block size, block size, amount already generated and total fee, the reward granted to a block is the '
     'scheduled base reward of that height (limited to what is left of the maximal supply) plus the fees, each reduced by the exact '
     'quadratic size penalty; a block above twice the effective median is refused. The emission change reported with the reward equals '
     'the reward minus the fees, and coins generated never exceed the maximal supply. A block no larger than the effective median '
     'receives the full base reward and all fees.',
     ['inputs', 'configurations'], 'all heights (32 bit), all sizes and medians below 2^32, all generated amounts up to the supply, all fees, main and test network',
     'the tests sample a few sizes and amounts; rounding of the 128-bit penalty and the schedule boundaries depend on every value',
     [CUR, BIM, 'src/Common/int-util.h'],
     [('base reward schedule and cap', CUR + ' baseRewardFunction'), ('reward and emission change', CUR + ' getBlockReward'),
      ('quadratic size penalty', BIM + ' getPenalizedAmount'), ('128-bit arithmetic', 'src/Common/int-util.h mul128, div128_32')],
     note='All obligations discharged for all inputs within the stated ranges; generated <= supply and fee <= supply are preconditions; height 1 pays the fixed pre-mine.')
prop('C04', 'Transactions conserve value: fees are inputs minus outputs, without overflow',
     'For every transaction, the fee is exactly the value of its inputs (with deposit interest) minus the value of its outputs; a '
     'transaction whose outputs exceed its inputs is refused unless it withdraws a term deposit, in which case the minimum fee is charged, '
     'and a coinbase has no fee. A transaction passes the overflow check if and only if neither the exact sum of its outputs nor the exact '
     'sum of its inputs, counting each term deposit with its maximal interest, exceeds 64 bits.',
     ['inputs'], 'all transactions: any number of inputs and outputs (below 2^40) of every kind with any amounts and terms, and all heights',
     'tests build transactions with a handful of inputs; sums over arbitrary many elements and 64-bit wrap-around need all of them',
     [FMT, CUR, 'src/CryptoNoteCore/Currency.h'],
     [('overflow checks', FMT + ' check_money_overflow, check_inputs_overflow, check_outs_overflow'), ('fee', CUR + ' getTransactionFee'),
      ('value of inputs', CUR + ' getTransactionAllInputsAmount; Currency.h input_amount_visitor'), ('sums', FMT + ' get_inputs_money_amount, get_outs_money_amount')],
     note='Interest of a deposit input is an uninterpreted function of amount, term and height here (its value is C02). Sequence lengths below 2^40.')

prop('C02', 'Deposit interest follows the published schedules exactly',
     'The interest of a deposit is a function of amount, term and the height at which it was locked only. Deposits locked after the '
     'third deposit height with a term of whole months use the monthly schedule (three amount tiers, a rate growing with the number of '
     'months, at most twelve months); other whole-week or whole-quarter terms use the weekly or investment schedule; any other term uses '
     'the original linear schedule with its early-height multiplier and its cap on the term. Interest is not paid on an input without a '
     'term, and the interest of a transaction is the exact sum over its deposit inputs.',
     ['inputs', 'configurations'], 'all amounts, terms and heights (32 bit), all transactions with any number of inputs (below 2^40), main and test network',
     'the tests check a table of amounts and terms; tier and rounding boundaries and the choice of schedule depend on every value',
     [CUR], [('choice of schedule', CUR + ' calculateInterest'), ('weekly and investment rates', CUR + ' calculateInterestV2'),
             ('monthly rates', CUR + ' calculateInterestV3'), ('interest of an input', CUR + ' getInterestForInput'),
             ('total interest', CUR + ' calculateTotalTransactionInterest')],
     note='Floating-point rates are checked bit for bit as the code computes them (round to nearest), per term; mul128/div128_32 are used through the contracts proved in C01.')
prop('C03', 'Only deposit terms allowed at a height are accepted',
     'A multisignature output with a term is valid if and only if, at its height, the term lies between the minimum and maximum deposit '
     'term in force, is a multiple of the minimum term where that is required, and the amount reaches the minimum deposit amount; an output '
     'without a term is always valid in this respect.',
     ['inputs', 'configurations'], 'all amounts, terms and heights, main and test network',
     'the tests sample terms on either side of a few limits at a few heights',
     [CUR], [('deposit terms', CUR + ' validateOutput')])
prop('C05', 'Difficulty follows the LWMA rule of the block version',
     'For every window of timestamps and cumulative difficulties, the LWMA-1 difficulty is the exact integer weighted average over the last '
     '60 blocks (solve times forced to be at least one second and capped at 720 s, weighted sum at least 21600), rounded to its significant '
     'digits, and a fixed value for the first 60 blocks after its activation; the LWMA-3 difficulty is the exact weighted average over up to '
     '60 blocks bounded to 67..150 percent of the previous difficulty and raised by 8 percent after three very fast blocks, and 100 for '
     'windows of at most ten blocks. The window handed to the rule is that of the last 61 blocks of the chain without the genesis block. Out-of-order timestamps can neither shrink the sum nor divide by zero.',
     ['inputs', 'configurations'], 'all timestamps (below 2^62 for LWMA-3) and cumulative difficulties of full windows, all heights, main and test network',
     'the tests feed recorded difficulties; sequences of hostile timestamps and the digit-rounding boundaries cannot be enumerated',
     [CUR], [('LWMA-1', CUR + ' nextDifficultyLWMA1'), ('LWMA-3', CUR + ' nextDifficultyLWMA3'),
      ('window and choice of rule', 'src/CryptoNoteCore/Blockchain.cpp getDifficultyForNextBlock')],
     note='Windows of 61 and more blocks in the quick tier, every partial window of 11..60 blocks in the thorough tier. 64-bit wrap-around of products is part of the specification (consensus).')
prop('C06', 'A block is accepted as proof of work exactly when its hash meets the difficulty',
     'A hash satisfies a difficulty if and only if hash times difficulty is below 2^256, for every 256-bit hash and 64-bit difficulty. The '
     'proof of work of a block is judged on the hash computed with the algorithm of the block version over the complete hashing blob, '
     'against the given difficulty, and fails if the blob cannot be built.',
     ['inputs'], 'all hashes, difficulties and block versions',
     'carry propagation over four 64-bit products is exercised by tests only for sampled hashes',
     ['src/CryptoNoteCore/Difficulty.cpp', CUR, FMT],
     [('threshold', 'src/CryptoNoteCore/Difficulty.cpp check_hash'), ('judging a block', CUR + ' checkProofOfWork'), ('hash selection', FMT + ' get_block_longhash')],
     note='The hash functions themselves are external contracts.')
CHA = 'src/CryptoNoteCore/Blockchain.cpp'
prop('C07', 'Inputs spend only existing, unlocked, unspent outputs with valid signatures',
     'The inputs of a transaction are accepted if and only if every one of them is. A key input is accepted only if its key image is not '
     'spent, it names at least one output, every output index resolves to an existing output of that amount that is a key output and whose '
     'transaction is unlocked, the ring is large enough (three members between the V4 and V5 upgrade heights), there is one signature per '
     'member and, outside the checkpoint zone, the key image lies in the prime-order subgroup and the ring signature verifies over exactly '
     'those keys and the transaction prefix hash. A multisignature input is accepted only if the output exists, is not used, its transaction '
     'is unlocked, the number of required signatures and the term match, the deposit has matured, and, outside the checkpoint zone, that many '
     'of its distinct keys signed. An unlock time below 500 million is a height the next block must have reached, otherwise a time that may lie '
     'at most one block target ahead.',
     ['inputs', 'histories'], 'all transactions (any number of inputs, ring members, keys and signatures below 2^40), all chain lengths, all contents of the output index, all unlock times',
     'tests replay a few wallets; which member, signature or input of an arbitrarily long list is skipped cannot be sampled',
     [CHA, 'src/CryptoNoteCore/Blockchain.h'],
     [('all inputs', CHA + ' checkTransactionInputs'), ('key inputs', CHA + ' check_tx_input'), ('ring members', 'src/CryptoNoteCore/Blockchain.h scanOutputKeysForIndexes'),
      ('multisignature inputs', CHA + ' validateInput'), ('unlock time', CHA + ' is_tx_spendtime_unlocked')],
     note='Signature schemes, scalar multiplication and hash-map lookups are contracts of external functions; output terms are limited by C03; heights below 2^31.')

BCH = 'src/CryptoNoteCore/Blockchain.cpp'
prop('C08', 'A coinbase claims exactly the block reward, in the prescribed form',
     'A coinbase transaction is accepted only if it has exactly one input, a base input carrying the height of the block, at most one '
     'signature, an unlock time of exactly the height plus the mined-money unlock window (10 blocks), and outputs that are valid, obey the deposit rules of '
     'the height and do not overflow. The sum of its outputs is at least the reward of the block (for its size, the median size '
     'of the last 100 blocks, the coins generated so far and the fees) and at most 10 atomic units above it; everything satisfying this is accepted.',
     ['inputs', 'histories'], 'all coinbase transactions (any number of inputs, outputs and signatures), all heights, all histories of block sizes (any chain length below 2^32)',
     'tests mine well-formed coinbases and a few malformed ones; the boundaries depend on every amount, height and the sizes of the last blocks',
     [BCH, 'src/Common/Math.h'],
     [('form of the coinbase', BCH + ' prevalidate_miner_transaction'), ('claimed amount', BCH + ' validate_miner_transaction'),
      ('window of block sizes', BCH + ' getBackwardBlocksSize, get_last_n_blocks_sizes'), ('median', 'src/Common/Math.h medianValue')],
     note='std::sort is assumed to sort; the validity of outputs is C10, the reward C01. The sum of the outputs is taken modulo 2^64, as overflow is excluded beforehand.')
prop('C09', 'Block version, size and timestamp obey the rules of their height',
     'The major version of a block must be exactly the version scheduled for the height its coinbase claims (1, 2, 3, 4, 7, 8 after the heights '
     '1, 12750, 104200, 195765, 661300 of the main network, respectively 1, 12, 48, 60, 72 of the test network). The cumulative size '
     'must not exceed one million bytes plus the scheduled growth (102400 bytes a year of 262800 blocks), and the size limit for the next block is twice the '
     'larger of 100000 and the median size of the last 100 blocks. The timestamp must be at most two hours ahead of the clock and, once 30 blocks exist, not '
     'below the median timestamp of the last 30 blocks.',
     ['inputs', 'histories', 'configurations'], 'all heights, sizes, timestamps, histories of any length below 2^32, main and test network',
     'tests visit a few heights and timestamps; each boundary is a single value among many',
     [BCH, CUR, 'src/CryptoNoteCore/UpgradeDetector.h', 'src/Common/Math.h'],
     [('version schedule', BCH + ' get_block_major_version_for_height, checkBlockVersion'), ('size limit', BCH + ' checkCumulativeBlockSize; Currency.cpp maxBlockCumulativeSize'),
      ('next limit', BCH + ' update_next_comulative_size_limit'), ('timestamps', BCH + ' check_block_timestamp_main, check_block_timestamp')],
     note='std::sort is assumed to sort (median proved in C08); the clock is the value of time().')
prop('C10', 'A transaction is accepted only if it is well formed',
     'The node accepts the structure of a transaction exactly when it has at least one input; every input is a key input, or a multisignature input in a '
     'transaction of version 2 or later; no key image occurs in two key inputs and no (amount, output index) in two multisignature inputs; every key output has a '
     'nonzero amount and a key that is a point of the curve; every multisignature output is in a transaction of version 2 or later, obeys the deposit terms of its '
     'height, requires no more signatures than it has keys, and all its keys are points of the curve; the input and output sums do not overflow; and the inputs, '
     'with the interest of their height (up to the deposit height of version 4 also with the other interest schedule), cover the outputs. Checking a malformed transaction never crashes, '
     'with or without an error text requested.',
     ['inputs', 'configurations'], 'transactions with any number of inputs, outputs and keys, any contents; all heights; main and test network',
     'the failing input is one position, one flag or one boundary in a structure of unbounded size',
     [FMT, BCH, 'src/CryptoNoteCore/Blockchain.h', 'src/CryptoNoteCore/Core.cpp'],
     [('semantic rule', 'Core.cpp check_tx_semantic, check_tx_inputs_keyimages_diff'), ('outputs', 'Blockchain.h check_tx_outputs_visitor; CryptoNoteFormatUtils.cpp check_outs_valid'),
      ('inputs', 'CryptoNoteFormatUtils.cpp check_inputs_types_supported, checkMultisignatureInputsDiff')],
     note='set insertion (whether an element is new) and the curve test of a key are contracts of the container and of the cryptographic primitive. Outputs with keys are '
          'proved one at a time (any number of keys), lists of any length for key outputs.')
prop('C11', 'Checkpoints pin blocks and bound reorganisations',
     'At a checkpointed height only the block with the checkpoint hash is acceptable, at other heights any; the checkpoint zone is exactly the heights up to the '
     'highest checkpoint. An alternative block is allowed exactly when its height is not 0, is at most 10 blocks below the chain height or lies in the checkpoint '
     'zone, and is above every checkpoint at or below the chain height. A checkpoint is added only at a height without one and with a valid hash, and never replaces another.',
     ['inputs', 'configurations'], 'every set of checkpoints, every height and hash',
     'the decision depends on the nearest member of an arbitrary set; every boundary is a single value',
     ['src/CryptoNoteCore/Checkpoints.cpp'],
     [('pinning and zone', 'Checkpoints.cpp check_block, is_in_checkpoint_zone'), ('reorganisation depth', 'Checkpoints.cpp is_alternative_block_allowed'),
      ('adding', 'Checkpoints.cpp add_checkpoint')],
     note='std::map lookups (find, count, upper_bound, predecessor) and podFromHex are contracts.')
