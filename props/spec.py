"""The verified units of every property: harness, real sources, contracts replaced at call sites."""
LOG = ['src/Logging/ILogger.cpp', 'src/Logging/LoggerRef.cpp', 'src/Logging/LoggerMessage.cpp']
CURRENCY = 'src/CryptoNoteCore/Currency.cpp'
BASIC = 'src/CryptoNoteCore/CryptoNoteBasicImpl.cpp'
PROPS = {}


def P(pid, units, **kw):
    PROPS[pid] = dict(units=units, **kw)


NATC = LOG + ['src/Common/StringTools.cpp']


def U(name, harness, tus, entries, **kw):
    return dict(name=name, harness=harness, tus=tus, entries=entries, native=kw.pop('native', LOG), **kw)


P('C01', [
    U('arith', 'reward.cpp', [CURRENCY, BASIC], ['check_mul128', 'check_div128'], targets=['mul128', 'div128_32']),
    U('penalty', 'reward.cpp', [CURRENCY, BASIC], ['mod_penalty', 'check_lemma_div'], replace={r'^mul128\(': 'stub_mul128', r'^div128_32\(': 'stub_div128_32'},
      targets=['cn::getPenalizedAmount']),
    U('base', 'reward.cpp', [CURRENCY, BASIC], ['mod_base'], init=['REWARD_INCREASING_FACTOR'],
      targets=['cn::Currency::baseRewardFunction', 'cn::CurrencyBuilder::CurrencyBuilder']),
    U('reward', 'reward.cpp', [CURRENCY, BASIC], ['mod_reward'],
      replace={r'^cn::getPenalizedAmount\(': 'stub_penalty', r'^cn::Currency::baseRewardFunction\(': 'stub_base'},
      targets=['cn::Currency::getBlockReward']),
])
CORE = 'src/CryptoNoteCore/Core.cpp'
FORMAT = 'src/CryptoNoteCore/CryptoNoteFormatUtils.cpp'
P('C04', [
    U('money', 'money.cpp', [FORMAT], ['mod_outs_overflow', 'mod_outs_amount', 'mod_inputs_amount', 'mod_inputs_overflow'],
      replace={r'^mul128\(': 'stub_mul128', r'^div128_32\(': 'stub_div128_32'}),
    U('fee', 'money.cpp', [FORMAT, CURRENCY, BASIC], ['mod_all_inputs', 'mod_fee'],
      replace={r'^cn::Currency::getInterestForInput\(': 'stub_interest'}),
])
P('C02', [
    U('schedule', 'deposit.cpp', [FORMAT, CURRENCY, BASIC], ['mod_schedule'],
      replace={r'^cn::Currency::calculateInterestV2\(': 'stub_v2', r'^cn::Currency::calculateInterestV3\(': 'stub_v3',
               r'^mul128\(': 'stub_mul128', r'^div128_32\(': 'stub_div128_32'}, targets=['cn::Currency::calculateInterest']),
    U('rates', 'deposit.cpp', [FORMAT, CURRENCY, BASIC], ['mod_monthly', 'mod_monthly_testnet', 'mod_monthly_zero', 'mod_weekly'],
      targets=['cn::Currency::calculateInterestV2', 'cn::Currency::calculateInterestV3']),
    U('investment', 'deposit.cpp', [FORMAT, CURRENCY, BASIC], ['mod_investment'], opts=dict(join=0), targets=['cn::Currency::calculateInterestV2']),
    U('input', 'deposit.cpp', [FORMAT, CURRENCY, BASIC], ['mod_input_interest'],
      replace={r'^cn::Currency::calculateInterest\(': 'stub_calculate'}, targets=['cn::Currency::getInterestForInput']),
    U('total', 'deposit.cpp', [FORMAT, CURRENCY, BASIC], ['mod_total_interest'],
      replace={r'^cn::Currency::getInterestForInput\(': 'stub_for_input'}, targets=['cn::Currency::calculateTotalTransactionInterest']),
])
P('C03', [
    U('output', 'deposit.cpp', [FORMAT, CURRENCY, BASIC], ['mod_validate_output'], targets=['cn::Currency::validateOutput']),
])
DIFF = 'src/CryptoNoteCore/Difficulty.cpp'
P('C05', [
    U('lwma', 'difficulty.cpp', [CURRENCY, BASIC, DIFF], ['mod_lwma1', 'mod_lwma3', 'mod_lwma3_start', 'mod_lwma3_longer'],
      targets=['cn::Currency::nextDifficultyLWMA1', 'cn::Currency::nextDifficultyLWMA3']),
    U('partial', 'difficulty.cpp', [CURRENCY, BASIC, DIFF], ['mod_lwma3_partial'], thorough=True, targets=['cn::Currency::nextDifficultyLWMA3']),
])
P('C06', [
    U('hash', 'difficulty.cpp', [CURRENCY, BASIC, DIFF, FORMAT], ['mod_check_hash'], targets=['cn::check_hash']),
    U('pow', 'difficulty.cpp', [CURRENCY, BASIC, DIFF, FORMAT], ['mod_pow'], replace={r'^cn::get_block_longhash\(': 'stub_longhash', r'^cn::check_hash\(': 'stub_check_hash'},
      targets=['cn::Currency::checkProofOfWork'], bind=True),
    U('longhash', 'difficulty.cpp', [CURRENCY, BASIC, DIFF, FORMAT], ['mod_longhash'],
      replace={r'^cn::get_block_hashing_blob\(': 'stub_hashing_blob', r'^crypto::cn_slow_hash_v0\(': 'stub_slow0', r'^crypto::cn_fast_slow_hash_v1\(': 'stub_slow1',
               r'^crypto::cn_conceal_slow_hash_v0\(': 'stub_slow2', r'^crypto::cn_gpu_hash_v0\(': 'stub_slow3'},
      targets=['cn::get_block_longhash'], bind=True),
])
CHAIN = 'src/CryptoNoteCore/Blockchain.cpp'
MAP_FIND = r'^phmap::.*raw_hash_set<.*::iterator phmap::.*::find<'
P('C07', [
    U('msig', 'chain.cpp', [CHAIN, CURRENCY, BASIC], ['mod_msig', 'mod_msig_absent'], opts=dict(unroll=2),
      replace={r'parallel_hash_set<.*MultisignatureOutputUsage.*>::find<.*>\(': 'stub_moc_find',
               r'^SwappedVector<cn::Blockchain::BlockEntry>::operator\[\]\(': 'stub_block_at',
               r'^std::vector<cn::Blockchain::TransactionEntry.*>::operator\[\]\(unsigned long\) const': 'stub_tx_at',
               r'^cn::Blockchain::isInCheckpointZone\(': 'stub_zone',
               r'^cn::Blockchain::is_tx_spendtime_unlocked\(': 'stub_unlocked',
               r'^crypto::crypto_ops::check_signature\(': 'stub_check_signature'},
      targets=['cn::Blockchain::validateInput'], bind=True, native=NATC),
    U('key', 'chain.cpp', [CHAIN, CURRENCY, BASIC], ['mod_key_input'], opts=dict(unroll=2),
      replace={r'^bool cn::Blockchain::scanOutputKeysForIndexes<cn::Blockchain::check_tx_input': 'stub_scan',
               r'^cn::Blockchain::isInCheckpointZone\(': 'stub_zone', r'^crypto::scalarmultKey\(': 'stub_scalarmult',
               r'^cn::Currency::formatAmount': 'stub_format', r'^crypto::crypto_ops::check_ring_signature\(': 'stub_ring'},
      targets=['cn::Blockchain::check_tx_input'], bind=True, native=NATC),
    U('ring', 'chain.cpp', [CHAIN, CURRENCY, BASIC, FORMAT], ['mod_ring'], opts=dict(unroll=2),
      replace={r'parallel_hash_set<.*Map.*unsigned long, std::vector<std::pair<cn::Blockchain::TransactionIndex.*>::find<unsigned long>\(unsigned long const&\)$': 'stub_outs_find',
               r'^cn::relative_output_offsets_to_absolute\(': 'stub_absolute', r'^cn::Blockchain::transactionByIndex\(': 'stub_tx_by_index',
               r'^(void |crypto::PublicKey const\*& )?std::vector<crypto::PublicKey const\*.*>::(push_back|emplace_back.*)\(': 'stub_collect',
               r'^cn::Blockchain::is_tx_spendtime_unlocked\(': 'stub_unlocked_at',
               r'^cn::Blockchain::isInCheckpointZone\(': 'stub_zone', r'^crypto::scalarmultKey\(': 'stub_scalarmult',
               r'^std::vector<crypto::PublicKey const\*.*>::size\(\) const': 'stub_collected',
               r'^cn::Currency::formatAmount': 'stub_format', r'^crypto::check_ring_signature\(': 'stub_ring_vector'},
      targets=['cn::Blockchain::check_tx_input', 'cn::Blockchain::scanOutputKeysForIndexes'], bind=True, native=NATC),
    U('unlock', 'chain.cpp', [CHAIN, CURRENCY, BASIC], ['mod_unlock'], replace={r'^time$': 'stub_time'},
      targets=['cn::Blockchain::is_tx_spendtime_unlocked'], bind=True, native=NATC),
    U('inputs', 'chain.cpp', [CHAIN, CURRENCY, BASIC], ['mod_inputs'], opts=dict(unroll=2),
      replace={r'^crypto::Hash cn::getObjectHash<': 'stub_hash', r'^cn::Blockchain::have_tx_keyimg_as_spent\(': 'stub_spent',
               r'^cn::Blockchain::check_tx_input\(.*\)$': 'stub_key', r'^cn::Blockchain::validateInput\(': 'stub_msig'},
      targets=['cn::Blockchain::checkTransactionInputs'], bind=True, native=NATC),
])

BLOCKHASH = {r'^cn::get_block_hash\(cn::Block const&\)$': 'stub_block_hash', r'^cn::Currency::formatAmount': 'stub_format'}
TXHASH = {r'^crypto::Hash cn::getObjectHash<cn::Transaction>\(cn::Transaction const&\)$': 'stub_tx_hash'}
MEDIAN = r'^unsigned long common::medianValue<unsigned long>\('
BLOCK_AT = r'^SwappedVector<cn::Blockchain::BlockEntry>::operator\[\]\('
PUSH64 = r'^(void |unsigned long& )?std::vector<unsigned long, .*>::(push_back|emplace_back.*)\('
P('C08', [
    U('shape', 'blocks.cpp', [CHAIN, CURRENCY, BASIC], ['mod_prevalidate'],
      replace=dict(BLOCKHASH, **{r'^cn::check_outs_valid\(': 'stub_outs_valid', r'^cn::Blockchain::check_tx_outputs\(': 'stub_outs_rules',
                                 r'^cn::check_outs_overflow\(': 'stub_outs_overflow'}),
      targets=['cn::Blockchain::prevalidate_miner_transaction'], bind=True, native=NATC),
    U('claim', 'blocks.cpp', [CHAIN, CURRENCY, BASIC], ['mod_validate_miner'],
      replace=dict(BLOCKHASH, **{r'^cn::Blockchain::get_last_n_blocks_sizes\(': 'stub_last_sizes', MEDIAN: 'stub_median_sizes',
                                 r'^cn::Currency::getBlockReward\(': 'stub_reward'}),
      targets=['cn::Blockchain::validate_miner_transaction'], bind=True, native=NATC),
    U('window', 'blocks.cpp', [CHAIN, CURRENCY, BASIC], ['mod_backward_sizes'], opts=dict(unroll=2),
      replace=dict(BLOCKHASH, **{BLOCK_AT: 'stub_window_block', PUSH64: 'stub_push_size'}),
      targets=['cn::Blockchain::get_last_n_blocks_sizes', 'cn::Blockchain::getBackwardBlocksSize'], bind=True, native=NATC),
    U('median', 'blocks.cpp', [CHAIN, CURRENCY, BASIC], ['mod_median'],
      replace={r'^void std::sort<__gnu_cxx::__normal_iterator<unsigned long\*, std::vector<unsigned long': 'stub_sort'},
      targets=['common::medianValue'], bind=True, native=NATC),
])
P('C09', [
    U('version', 'blocks.cpp', [CHAIN, CURRENCY, BASIC], ['mod_version'], replace=BLOCKHASH,
      targets=['cn::Blockchain::get_block_major_version_for_height', 'cn::Blockchain::getBlockMajorVersionForHeight', 'cn::Currency::upgradeHeight'], bind=True, native=NATC),
    U('checkversion', 'blocks.cpp', [CHAIN, CURRENCY, BASIC, FORMAT], ['mod_check_version'],
      replace=dict(BLOCKHASH, **{r'^cn::Blockchain::get_block_major_version_for_height\(': 'stub_version'}),
      targets=['cn::Blockchain::checkBlockVersion', 'cn::get_block_height'], bind=True, native=NATC),
    U('limit', 'blocks.cpp', [CHAIN, CURRENCY, BASIC], ['mod_size_limit'], replace=BLOCKHASH,
      targets=['cn::Blockchain::checkCumulativeBlockSize', 'cn::Currency::maxBlockCumulativeSize'], bind=True, native=NATC),
    U('nextlimit', 'blocks.cpp', [CHAIN, CURRENCY, BASIC], ['mod_next_limit'],
      replace=dict(BLOCKHASH, **{r'^cn::Blockchain::get_last_n_blocks_sizes\(': 'stub_last_sizes', MEDIAN: 'stub_median_limit'}),
      targets=['cn::Blockchain::update_next_comulative_size_limit'], bind=True, native=NATC),
    U('timemain', 'blocks.cpp', [CHAIN, CURRENCY, BASIC], ['mod_timestamp_main'], opts=dict(unroll=2),
      replace=dict(BLOCKHASH, **{BLOCK_AT: 'stub_window_block', PUSH64: 'stub_push_time', r'^time$': 'stub_time',
                                 r'^cn::Blockchain::check_block_timestamp\(': 'stub_check_timestamp'}),
      targets=['cn::Blockchain::check_block_timestamp_main'], bind=True, native=NATC),
    U('time', 'blocks.cpp', [CHAIN, CURRENCY, BASIC], ['mod_timestamp'], replace=dict(BLOCKHASH, **{MEDIAN: 'stub_median_time'}),
      targets=['cn::Blockchain::check_block_timestamp'], bind=True, native=NATC),
])

PROPS['C05']['units'] += [
    U('next', 'blocks.cpp', [CHAIN, CURRENCY, BASIC], ['mod_next_difficulty', 'mod_next_difficulty_start'],
      replace=dict(BLOCKHASH, **{BLOCK_AT: 'stub_next_block', r'^cn::Blockchain::getBlockMajorVersionForHeight\(': 'stub_v1',
                                 r'^cn::Blockchain::get_block_major_version_for_height\(': 'stub_v2',
                                 r'^cn::Currency::nextDifficultyLWMA1\(': 'stub_lwma1', r'^cn::Currency::nextDifficultyLWMA3\(': 'stub_lwma3',
                                 r'^cn::Currency::nextDifficulty\(unsigned char': 'stub_old'}),
      eopts=dict(mod_next_difficulty_start=dict(join=0)), targets=['cn::Blockchain::getDifficultyForNextBlock'], bind=True, native=NATC),
]
P('C10', [
    U('types', 'txrules.cpp', [FORMAT], ['mod_types'], targets=['cn::check_inputs_types_supported']),
    U('msigdiff', 'txrules.cpp', [FORMAT], ['mod_msig_diff'], replace={r'^std::pair<.*> std::_Rb_tree<std::pair<unsigned long, unsigned int>.*::_M_insert_unique<|^std::set<std::pair<unsigned long, unsigned int>.*::insert\(': 'stub_set_insert'},
      targets=['cn::checkMultisignatureInputsDiff'], bind=True, native=NATC),
    U('outsvalid', 'txrules.cpp', [FORMAT], ['mod_outs_valid', 'mod_out_valid'], opts=dict(unroll=2), replace={r'^crypto::check_key\(|^crypto::crypto_ops::check_key\(': 'stub_check_key'},
      targets=['cn::check_outs_valid'], bind=True, native=NATC),
    U('txoutputs', 'txsem.cpp', [CHAIN, CURRENCY, BASIC], ['mod_tx_output', 'mod_tx_outputs'], opts=dict(unroll=2),
      replace=dict(TXHASH, **{r'^crypto::check_key\(|^crypto::crypto_ops::check_key\(': 'stub_check_key', r'^cn::Currency::validateOutput\(': 'stub_validate_output'}),
      targets=['cn::Blockchain::check_tx_outputs', 'cn::check_tx_outputs_visitor'], bind=True, native=NATC),
    U('semantic', 'txsem.cpp', [CORE, CURRENCY, BASIC], ['mod_semantic'],
      replace=dict(TXHASH, **{r'^cn::check_inputs_types_supported\(': 'stub_types', r'^cn::Blockchain::check_tx_outputs\(': 'stub_tx_outputs',
                                 r'^cn::check_money_overflow\(': 'stub_overflow', r'^cn::Currency::getTransactionAllInputsAmount\(': 'stub_all_in',
                                 r'^cn::get_outs_money_amount\(': 'stub_all_out', r'^cn::core::check_tx_inputs_keyimages_diff\(': 'stub_images',
                                 r'^cn::checkMultisignatureInputsDiff\(': 'stub_msigs'}),
      targets=['cn::core::check_tx_semantic'], bind=True, native=NATC),
    U('images', 'txsem.cpp', [CORE, CURRENCY, BASIC], ['mod_images'],
      replace=dict(TXHASH, **{r'^std::pair<.*std::_Hashtable<crypto::KeyImage,.*::_M_insert_unique<|^std::.*unordered_set<crypto::KeyImage,.*::insert\(': 'stub_image_insert'}),
      targets=['cn::core::check_tx_inputs_keyimages_diff'], bind=True, native=NATC),
])
MAPH = r'^std::map<unsigned int, crypto::Hash, .*>::'
P('C11', [
    U('checkpoints', 'checkpoints.cpp', ['src/CryptoNoteCore/Checkpoints.cpp', CURRENCY, BASIC], ['mod_check', 'mod_zone', 'mod_alternative', 'mod_add'],
      replace={MAPH + r'find\(.* const$': 'stub_find', MAPH + r'count\(.* const$': 'stub_count', MAPH + r'upper_bound\(.* const$': 'stub_upper',
               r'^std::_Rb_tree_decrement\(std::_Rb_tree_node_base const\*\)': 'stub_decrement', MAPH + r'operator\[\]\(': 'stub_at',
               r'^bool common::podFromHex<crypto::Hash>\(': 'stub_hex'},
      targets=['cn::Checkpoints::check_block', 'cn::Checkpoints::is_in_checkpoint_zone', 'cn::Checkpoints::is_alternative_block_allowed', 'cn::Checkpoints::add_checkpoint'],
      bind=True, native=NATC),
])
def PH(policy, member):
    return r'^.*phmap::priv::parallel_hash_(set|map)<4ul, phmap::priv::raw_hash_set, phmap::NullMutex, phmap::priv::FlatHashMapPolicy<' + policy + r',.*> >::' + member


KEYIMG, TXMAP, MSIGS, KEYOUTS = 'crypto::KeyImage', 'crypto::Hash, cn::Blockchain::TransactionIndex>', \
    'unsigned long, std::vector<cn::Blockchain::MultisignatureOutputUsage', 'unsigned long, std::vector<std::pair<cn::Blockchain::TransactionIndex, unsigned short>'
V_USE = r'^(void |cn::Blockchain::MultisignatureOutputUsage& )?std::vector<cn::Blockchain::MultisignatureOutputUsage, .*>::'
V_KEY = r'^(void |std::pair<cn::Blockchain::TransactionIndex, unsigned short>& )?std::vector<std::pair<cn::Blockchain::TransactionIndex, unsigned short>, .*>::'
PUSHTX = {PH(KEYIMG, r'insert\(std::pair<crypto::KeyImage, unsigned int>&&\)$'): 'stub_spend', PH(KEYIMG, r'erase<crypto::KeyImage>\('): 'stub_unspend',
          PH(TXMAP, r'insert\(std::pair<crypto::Hash, cn::Blockchain::TransactionIndex>&&\)$'): 'stub_tx_insert', PH(TXMAP, r'erase<crypto::Hash>\('): 'stub_tx_erase',
          PH(MSIGS, r'find<unsigned long>\(unsigned long const&\)'): 'stub_moc_find', PH(MSIGS, r'operator\[\]<'): 'stub_moc_at', PH(KEYOUTS, r'operator\[\]<'): 'stub_oc_at',
          V_USE + r'size\(': 'stub_usages_size', V_USE + r'operator\[\]\(': 'stub_usages_at', V_USE + r'push_back\(': 'stub_usages_push',
          V_KEY + r'size\(': 'stub_keyouts_size', V_KEY + r'push_back\(': 'stub_keyouts_push',
          r'^std::vector<cn::Blockchain::TransactionEntry, .*>::operator\[\]\(unsigned long\)$': 'stub_entry',
          r'^cn::checkMultisignatureInputsDiff\(': 'stub_diff', r'^cn::PaymentIdIndex::add\(': 'stub_payment_add'}
P('C12', [
    U('push', 'spent.cpp', [CHAIN, CURRENCY, BASIC], ['mod_push_spent'], replace=PUSHTX, opts=dict(unroll=2),
      targets=['cn::Blockchain::pushTransaction'], bind=True, native=NATC),
])
