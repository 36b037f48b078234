import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(obs),hook_needed=hook)))
PC='contracts/pool/src/contract.rs';PS='contracts/pool/src/storage.rs'
SC='contracts/pool_stable/src/contract.rs';SM='contracts/pool_stable/src/math.rs'
KC='contracts/stake/src/contract.rs';KD='contracts/stake/src/distribution.rs';KS='contracts/stake/src/storage.rs'
RC='contracts/stake_rewards/src/contract.rs';RD='contracts/stake_rewards/src/distribution.rs'
VC='contracts/vesting/src/contract.rs';VU='contracts/vesting/src/utils.rs';VS='contracts/vesting/src/storage.rs'
FC='contracts/factory/src/contract.rs';MC='contracts/multihop/src/contract.rs';MU='contracts/multihop/src/utils.rs'
DC='contracts/trader/src/contract.rs';TC='contracts/token/src/contract.rs'
CU='packages/curve/src/lib.rs';DE='packages/decimal/src/decimal.rs'

p('P01','Constant-product swaps pay the priced amount and never drain the pool',
 'A successful swap in a constant-product pool pays the trader exactly the constant-product output for the amount offered minus the configured fee, pays that fee to the fee recipient and takes exactly the offered amount from the trader, in either direction. The product of the two recorded reserves never decreases because of a swap by more than the rounding of one smallest unit of the bought token, and the price is never better than the ratio of the reserves before the swap.',
 ['inputs','histories','configurations'],'every offer amount, direction, fee setting, reserve level and preceding history of deposits, withdrawals, donations and swaps',
 'Tests swap a handful of round amounts in freshly funded balanced pools; they do not reach unbalanced reserves, dust, rounding corners or long mixed histories.',
 [PC,PS,DE],[('compute_swap',PC),('do_swap',PC)],[('pool balances','recorded reserves',PS)],['swap','query_pool_info','token balances'])
p('P02','Recorded reserves of a constant-product pool are always backed by real tokens',
 'After any history of calls the recorded reserves never exceed the tokens the pool really holds, they move by exactly the tokens a swap or withdrawal moved, and after a deposit they equal the real holdings. Tokens enter or leave the pool only through the movements the caller asked for, and the totals of each token over all parties are conserved.',
 ['histories','inputs'],'every interleaving of deposits, swaps, withdrawals and direct token donations by several users',
 'Tests check reserves after one or two operations and never after donations or long interleavings.',
 [PC,PS],[('save_pool_balance_a/b',PS),('do_swap reserve update',PC),('provide/withdraw reserve update',PC)],[],['query_pool_info','balance'])
p('P03','Deposits mint LP shares proportionally and never dilute existing holders',
 'The first deposit locks a fixed minimum of 1000 shares and issues the rest of the geometric mean of the amounts to the depositor; every later deposit issues the largest share amount that leaves reserves-per-share of both tokens at least what they were. The amounts taken never exceed what the depositor asked to deposit and, once the pool is funded, follow the pool ratio up to the accepted slippage.',
 ['inputs','histories','configurations'],'all desired/minimum amounts, slippage settings, pool ratios and histories',
 'Tests deposit balanced round amounts; ratio selection, rounding, and donated pools are only sampled.',
 [PC,PS],[('get_deposit_amounts',PS),('provide_liquidity share computation',PC)],[('total shares','LP supply',PS)],['provide_liquidity','query_total_issued_lp','LP balance'])
p('P04','Burning LP shares pays exactly the pro-rata part of the reserves',
 'A withdrawal burns exactly the given shares of the caller and pays the floor of the pro-rata part of both reserves, never more, and value per remaining share never falls. The recorded number of shares always equals the circulating supply of LP tokens issued by the pool (the locked minimum included), so every holder can redeem.',
 ['inputs','histories'],'every share amount, pool state and history of deposits, swaps and withdrawals',
 'Tests withdraw round shares from balanced pools; supply/record agreement over long histories is untested.',
 [PC,PS],[('withdraw_liquidity',PC),('mint_shares/burn_shares',PS),('Decimal::from_ratio',DE)],[],['withdraw_liquidity','query_share','query_total_issued_lp','LP balances'])
p('P05','Constant-product pool honours every limit its caller set',
 'A swap, deposit or withdrawal in a constant-product pool succeeds only if the ledger time is not past the deadline, every minimum amount is met (a deposit into an empty pool takes the full desired amounts instead), the fee does not exceed the accepted fee, the spread does not exceed the accepted (or default) spread, and a custom slippage or spread is within the pool bounds; calls that meet all limits succeed. A call that violates a limit is rejected and changes nothing.',
 ['inputs','configurations','histories'],'all combinations of optional limits including values exactly at and one off each limit',
 'Tests try one value far on each side of a limit; exact boundaries and combinations are not reached.',
 [PC,PS],[('deadline checks',PC),('assert_max_spread',PC),('max fee check',PC),('get_deposit_amounts minimum checks',PS),('withdraw minimum checks',PC)],[],['provide_liquidity','swap','withdraw_liquidity'])
p('P06','Constant-product pool quotes agree with execution',
 'At any pool state a swap simulation reports exactly the output, fee and spread that executing that swap would produce, the share query reports exactly what withdrawing those shares would pay, and the reverse quote asks for the offer amount priced from the desired output with the fee on top. Queries never change state, and pool information reports the stored configuration, reserves and share supply.',
 ['inputs','histories','configurations'],'all amounts, directions, fees and reachable pool states',
 'Tests compare a few simulations with hand-computed constants at one pool state.',
 [PC],[('simulate_swap',PC),('simulate_reverse_swap',PC),('query_share',PC),('query_pool_info',PC),('query_pool_info_for_factory',PC)],[],['simulate_swap','simulate_reverse_swap','query_share','query_pool_info','query_pool_info_for_factory','query_config'])
p('P07','Constant-product pool configuration stays valid and admin-controlled',
 'A pool can be initialised once, only with percentages between 0 and 100% and a fee not above the allowed maximum and with its tokens in canonical order. Configuration, admin and code change only when the current admin authorised it, every percentage stays within 0 and 100%, and exactly the requested fields change; user funds move only with the authorisation of the user paying them.',
 ['inputs','histories','configurations'],'all callers, optional-field combinations, boundary percentages, and admin hand-overs',
 'Tests mock all authorisations, so a missing authorisation requirement passes; combinations of optional fields are not covered.',
 [PC,PS],[('update_config',PC),('upgrade',PC),('initialize',PC),('validate_bps','packages/phoenix/src/utils.rs')],[],['initialize','update_config','upgrade','query_config'])

p('S01','Stable swaps pay the invariant-priced amount minus the fee',
 'A successful swap in a stable pool takes exactly the offered amount, pays the amount obtained by solving the pool invariant (as the pool iterates it) for the new balance minus the configured fee, and pays that fee to the fee recipient, in either direction and for tokens of different decimals. The pool never pays more than its reserve and the value of the reserves measured by the invariant does not decrease because of a swap beyond the rounding of one smallest unit and the tolerance of the iteration.',
 ['inputs','histories','configurations'],'all amounts, directions, amplification, fees, token decimals and reserve imbalances',
 'Tests use balanced pools of equal-decimal tokens and a few amounts.',
 [SC,SM],[('compute_swap',SC),('calc_y',SM),('do_swap',SC)],[],['swap','query_pool_info'])
p('S02','Stable-pool deposits and withdrawals keep LP shares fair and fully recorded',
 'A deposit mints shares in proportion to the growth of the pool invariant (the first one mints the invariant less a fixed minimum of 1000), a withdrawal burns exactly the given shares and pays the floor of the pro-rata reserves, and neither lowers the redeemable value of other holders. The recorded number of shares equals the LP supply the pool issued.',
 ['inputs','histories','configurations'],'all deposit ratios, share amounts, decimals and histories',
 'Tests use balanced deposits; single-sided deposits, rounding and histories are not covered.',
 [SC,SM],[('provide_liquidity',SC),('compute_d',SM),('withdraw_liquidity',SC)],[],['provide_liquidity','withdraw_liquidity','query_share','query_total_issued_lp'])
p('S03','Recorded reserves of a stable pool are always backed by real tokens',
 'After any history of calls the recorded stable-pool reserves never exceed the tokens the pool holds, and every operation moves exactly the tokens the caller asked for; totals of each token over all parties are conserved.',
 ['histories','inputs'],'every interleaving of deposits, swaps, withdrawals and donations',
 'Tests check reserves after at most a few operations without donations.',
 [SC],[('do_swap',SC),('provide_liquidity',SC),('withdraw_liquidity',SC)],[],['query_pool_info','balance'])
p('S04','Stable pool honours every limit its caller set',
 'A stable-pool swap, deposit or withdrawal succeeds only if it is not past its deadline and every stated limit holds: minimum output, maximum spread, accepted fee, minimum shares, minimum withdrawn amounts, and a slippage or spread setting (custom or default) that does not exceed the pool\'s maximum. A call that violates a limit is rejected without effect.',
 ['inputs','configurations'],'all combinations of optional limits including exact boundaries',
 'Tests try one value far on each side.',
 [SC],[('deadline checks',SC),('assert_max_spread',SC),('min shares check',SC)],[],['swap','provide_liquidity','withdraw_liquidity'])
p('S05','Stable-pool quotes agree with execution',
 'A stable-pool swap simulation reports exactly the output, fee and spread that executing the swap would produce and the share query exactly what withdrawing would pay; the reverse quote is priced by the same invariant. Queries never change state and report the stored configuration, reserves and supply.',
 ['inputs','histories'],'all amounts, directions and reachable states',
 'Tests compare few constants at one state.',
 [SC],[('simulate_swap',SC),('simulate_reverse_swap',SC),('query_share',SC)],[],['simulate_swap','simulate_reverse_swap','query_share','query_pool_info','query_pool_info_for_factory'])
p('S06','Stable-pool configuration stays valid and admin-controlled',
 'A stable pool can be initialised once and only with valid percentages, amplification and token order; its configuration, admin and code change only when the current admin authorised the call, within valid percentage bounds, and exactly the requested fields change. User funds move only with the authorisation of the user paying them.',
 ['inputs','histories','configurations'],'all callers, optional-field combinations and boundary values',
 'Tests mock all authorisations, so a missing authorisation passes.',
 [SC],[('update_config',SC),('initialize',SC),('update',SC)],[],['initialize','update_config','query_config'])

p('K01','Staked LP tokens are always accounted for and returned only to their owner',
 'The total staked always equals the sum of all users\' open stakes and is covered by the LP tokens held by the staking contract. Bonding moves exactly the bonded amount (at least the minimum) and opens one stake stamped with the current time; unbonding closes exactly one matching stake of the caller, returns exactly its amount, and fails without effect if there is none.',
 ['histories','inputs','schedules'],'every interleaving of bonds and unbonds by several users, including equal amounts and equal timestamps',
 'Tests bond and unbond a few distinct stakes; duplicates and long histories are not covered.',
 [KC,KS],[('bond',KC),('unbond',KC),('remove_stake',KC),('increase/decrease_total_staked',KS)],[],['bond','unbond','query_staked','query_total_staked','LP balance'])
p('K02','Stakers receive exactly their time-weighted share of every distribution, once',
 'For each distribution made at a time later than the staker\'s last claim and not in the future, each of the staker\'s open stakes earns its fraction of the total staked recorded at that distribution, scaled linearly by the stake\'s age in whole days up to 60; stakes opened after the distribution earn nothing from it. A claim pays exactly the reported withdrawable amount of every reward token to the staker and can not be repeated for the same distribution.',
 ['histories','inputs','schedules'],'every ordering and timing of bonds, unbonds, distributions of several tokens and claims',
 'Tests use one or two users and fixed schedules; late bonds, same-timestamp events and interleaved claims are not explored.',
 [KC,KD],[('calculate_pending_rewards',KD),('withdraw_rewards',KC),('distribute_rewards',KC)],[],['withdraw_rewards','query_withdrawable_rewards','reward token balances'])
p('K03','Staking rewards are fully funded and never paid beyond what was distributed',
 'Every distribution pulls exactly its amount from the distributor at that moment and is added to what stakers can earn; summed over all stakers and any schedule, the rewards paid never exceed the amount distributed per token, so a claim can never be paid out of staked principal or another distribution. What is not yet claimed stays in the contract.',
 ['histories','schedules'],'every interleaving of distributions (also several at one timestamp), stake changes and claims',
 'Tests never sum payments across users for random schedules nor distribute twice at one timestamp.',
 [KC,KD],[('distribute_rewards',KC),('save_reward_history',KD),('calculate_pending_rewards',KD)],[],['distribute_rewards','withdraw_rewards','reward token balance of the contract'])
p('K04','Only authorised parties run staking distributions and move stakes',
 'Only the manager or owner, having authorised the call, can create a reward flow or distribute rewards, a reward token can be registered once and must be registered before it is distributed. Bonding and unbonding require the staker\'s own authorisation, and initialisation is possible once with positive minimums.',
 ['inputs','histories'],'all callers, signers and orders of administrative calls',
 'Tests mock all authorisations.',
 [KC,KS],[('create_distribution_flow',KC),('distribute_rewards',KC),('add_distribution',KS),('initialize',KC)],[],['initialize','create_distribution_flow','distribute_rewards','bond','unbond'])

p('R01','Funded reward streams are conserved: paid plus owed never exceeds funded',
 'In a reward contract the tokens funded are released along the agreed linear schedule and, for any schedule of funding, distribution, stake changes and claims, what was paid out plus what is recorded as withdrawable never exceeds what was funded and released. A distribution releases exactly the part of the funding that has vested by then.',
 ['histories','schedules','inputs'],'all funding windows, distribution times, stake changes and claims',
 'Tests follow a few fixed schedules.',
 [RC,RD,CU],[('distribute_rewards',RC),('fund_distribution',RC),('get_reward_curve',RD)],[],['query_distributed_reward','query_undistributed_reward','token balance'])
p('R02','Reward points are split in proportion to staking power without retroactive gains',
 'Rewards released while a user holds stake are credited in proportion to the user\'s staking power at that time, bonding or unbonding never changes what was already earned, and claiming pays exactly the reported withdrawable amount scaled by the stakes\' average age up to 60 days.',
 ['histories','schedules','inputs'],'all orders of bond, unbond, distribution and claim notifications for several users',
 'Tests use a few users with fixed amounts.',
 [RC,RD],[('update_rewards',RD),('calculate_bond/unbond',RC),('withdrawable_rewards',RD),('calc_withdraw_power',RD)],[],['withdraw_rewards','query_withdrawable_reward'])
p('R03','Reward accounting is driven only by the staking contract and admin',
 'Stake notifications and distributions are accepted only with the staking contract\'s authorisation, funding only with the admin\'s and above the minimum and for a future start, a positive duration and bounded complexity; claims are accepted only with the staking contract\'s authorisation and, when unbonding, the user\'s; initialisation happens once and fixes the configuration.',
 ['inputs','histories'],'all callers and boundary funding parameters',
 'Tests mock all authorisations.',
 [RC],[('require_auth calls',RC),('fund_distribution validation',RC)],[],['fund_distribution','calculate_bond','calculate_unbond','distribute_rewards','withdraw_rewards'])

p('V01','Vesting never releases more than the schedule has vested',
 'At any time the total a recipient has claimed from a schedule plus what is still locked by its curve never exceeds the schedule\'s total, the claimable amount is exactly the unclaimed balance minus the amount the curve still locks, and each claim pays exactly that to the recipient and nothing is claimable twice. Once the curve has ended everything has become claimable.',
 ['histories','inputs','schedules'],'all curve shapes (linear, stepwise), claim times and orders, several schedules per recipient',
 'Tests claim at a few points of a few curves.',
 [VC,VS,CU],[('claim',VC),('query_available_to_claim',VC),('Curve::value',CU)],[],['claim','query_available_to_claim','query_balance','token balances'])
p('V02','Vesting custody: every open schedule is fully backed',
 'The tokens held by the vesting contract always cover the sum of the unclaimed balances of all schedules; creating schedules moves exactly their total from the admin, and a recipient\'s schedules are stored separately without overwriting one another. Queries report exactly the stored schedules.',
 ['histories','inputs'],'all orders of schedule creation, claims, and minter operations',
 'Tests create one or two batches.',
 [VC,VS],[('create_vesting_schedules',VC),('save_vesting',VS)],[],['create_vesting_schedules','query_all_vesting_info','query_vesting_info','query_vesting_contract_balance'])
p('V03','Only sound vesting schedules are admitted',
 'A batch of schedules is accepted only from the authorising admin and only if it is non-empty, names no recipient twice, and every curve is a linear or stepwise one (not a constant) that never increases, ends at zero and has fewer points than the complexity limit; otherwise nothing is created or moved.',
 ['inputs'],'all curve shapes and batches including degenerate and boundary ones',
 'Tests try a few invalid curves.',
 [VC,VU,CU],[('create_vesting_schedules validation',VC),('utils',VU),('Curve::validate_*',CU)],[],['create_vesting_schedules'])
p('V04','The vesting minter can never exceed its capacity',
 'Only the current minter, having authorised, can mint, each mint reduces the remaining capacity by exactly the minted amount and total minting never exceeds granted capacity. Capacity and minter change only through the admin (or the minter handing over), and burning reduces only the caller\'s own tokens.',
 ['histories','inputs'],'all sequences of mint, burn, capacity and minter changes by any caller',
 'Tests run a few single calls with all authorisations mocked.',
 [VC,VS],[('mint',VC),('burn',VC),('update_minter',VC),('update_minter_capacity',VC)],[],['mint','burn','query_minter','token supply'])

p('F01','The factory keeps one discoverable pool per token pair',
 'For every token pair there is at most one pool, whatever its type; every created pool appears exactly once in the pool list in creation order and is found under its pair in either token order, and no other pair resolves to it. A rejected creation leaves the registry unchanged.',
 ['histories','inputs'],'all creation sequences over pairs, types and orders',
 'Tests create up to a few pools.',
 [FC,'contracts/factory/src/storage.rs'],[('create_liquidity_pool',FC),('save_lp_vec_with_tuple_as_key','contracts/factory/src/storage.rs'),('deploy_and_initialize_lp','contracts/factory/src/utils.rs')],[],['create_liquidity_pool','query_pools','query_for_pool_by_token_pair','query_all_pools_details','query_pool_details'])
p('F02','Factory administration and pool creation stay restricted',
 'Only a whitelisted account that authorised the call can create a pool, only the admin can change the whitelist, code hashes or code, and whitelist updates have exactly the requested effect without duplicates. The factory can be initialised once and only with a non-empty whitelist.',
 ['inputs','histories'],'all callers, whitelist edits and orders',
 'Tests mock all authorisations and use small whitelists.',
 [FC],[('create_liquidity_pool authorisation',FC),('update_whitelisted_accounts',FC),('update_wasm_hashes',FC)],[],['create_liquidity_pool','update_whitelisted_accounts','get_config'])
p('F03','Pools created by the factory are configured exactly as requested',
 'A pool created through the factory carries exactly the requested admin, tokens, fee, fee recipient and limits, its own new LP token and a staking contract with the requested minimums and manager with the factory as owner, and pool details reported by the factory are those of the pool. Creation with invalid percentages, token order, missing amplification or non-positive stake minimums is rejected.',
 ['inputs','configurations'],'all creation parameters including boundaries, for both pool types',
 'Tests use one fixed configuration.',
 [FC,'contracts/factory/src/utils.rs',PC,SC],[('create_liquidity_pool',FC),('deploy_and_initialize_lp','contracts/factory/src/utils.rs'),('validate_pool_info',FC)],[],['create_liquidity_pool','query_config','query_pool_details','stake query_config'])
p('F04','A user portfolio reports exactly what the user could redeem',
 'For any user and state the portfolio lists, for each pool where the user has shares, the token amounts that redeeming the user\'s LP tokens (held and staked) would pay, and with staking requested exactly the open stakes of each pool.',
 ['histories','inputs'],'all users, holdings, stakes and pool states',
 'Tests check one or two portfolios.',
 [FC],[('query_user_portfolio',FC)],[],['query_user_portfolio'])

p('M01','Multi-hop swaps chain atomically and pay only the user',
 'A multi-hop swap moves the user\'s input through the listed pools so that each hop spends exactly what the previous hop paid, credits the final output to the user, leaves nothing in the router, and equals executing the single swaps one after the other. If any hop fails nothing changes.',
 ['histories','inputs','programs'],'all routes (length, direction, pool types), amounts and pool states',
 'Tests run a few fixed routes over balanced pools.',
 [MC,MU],[('swap',MC),('verify_swap',MU)],[],['swap','balances','pool reserves'])
p('M02','Multi-hop swaps honour every limit and reject malformed routes',
 'Empty routes, routes whose hops do not connect and unknown pools are rejected; deadline, per-hop minimum output, maximum spread and accepted fee are enforced on each hop. The user\'s authorisation is required; administration requires the admin and initialisation happens once.',
 ['inputs','configurations'],'all routes and limits including boundaries',
 'Tests exercise a few limits on single routes.',
 [MC,MU],[('swap',MC),('verify_swap',MU)],[],['swap','simulate_swap','initialize'])
p('M03','Multi-hop quotes agree with executing the route',
 'Simulating a route reports exactly the output the swap would pay and the fee and spread amounts of every hop, and the reverse simulation reports the chained reverse quotes of the pools along the route; simulations change nothing.',
 ['inputs','histories'],'all routes, amounts and pool states',
 'Tests compare one or two constants.',
 [MC,MU],[('simulate_swap',MC),('simulate_reverse_swap',MC),('verify_reverse_swap',MU)],[],['simulate_swap','simulate_reverse_swap'])

p('D01','The trader converts and pays out only what its admin ordered, exactly',
 'A trade sells exactly the ordered amount of one of the pair\'s tokens held by the trader at the pool\'s price under the given limits and keeps the proceeds; a transfer sends exactly the ordered amount of the chosen (default: output) token to the recipient. No other balance changes, and balance queries report the real holdings.',
 ['inputs','histories'],'all amounts, tokens, limits and orders',
 'The trader\'s tests do not compile at this commit; nothing is tested.',
 [DC],[('trade_token',DC),('transfer',DC),('query_balances',DC)],[],['trade_token','transfer','query_balances','balances'])
p('D02','Only the trader admin can move the trader\'s funds',
 'Trades and transfers succeed only when called by the admin with the admin\'s authorisation and need no other authorisation; tokens outside the pair and spreads outside 0..100% are rejected, and initialisation happens once.',
 ['inputs','histories'],'all callers, signers and parameters',
 'No trader test runs at this commit.',
 [DC],[('admin check',DC),('initialize',DC)],[],['initialize','trade_token','transfer'])

p('T01','LP-token balances are conserved and bounded by supply',
 'Transfers move exactly the stated amount between two accounts, minting and burning change exactly one balance and the supply by that amount, balances never become negative, negative amounts are rejected and failed operations change nothing.',
 ['histories','inputs'],'all sequences of transfers, mints, burns and spender operations incl. self-transfers and exact balances',
 'Tests run a handful of operations.',
 [TC,'contracts/token/src/balance.rs'],[('spend_balance/receive_balance','contracts/token/src/balance.rs'),('check_nonnegative_amount',TC)],[],['transfer','mint','burn','balance'])
p('T02','Token spending requires the owner or an unexpired sufficient allowance',
 'Tokens leave an account only with its authorisation or through a spender whose unexpired allowance covers the amount and is reduced by exactly it. Allowances read as zero after their expiration ledger, can not be set in the past when positive, and an approval replaces the earlier one.',
 ['histories','inputs'],'all approve / transfer_from / burn_from sequences and expirations',
 'Tests cover single approvals.',
 [TC,'contracts/token/src/allowance.rs'],[('write_allowance/read_allowance/spend_allowance','contracts/token/src/allowance.rs'),('require_auth',TC)],[],['approve','allowance','transfer_from','burn_from'])
p('T03','Only the token admin can mint or hand over administration',
 'Minting and changing the administrator require the current administrator\'s authorisation, a hand-over removes the old administrator\'s rights, and name, symbol and decimals (at most 18) stay as constructed.',
 ['inputs','histories'],'all callers and hand-over sequences',
 'Tests mock all authorisations.',
 [TC,'contracts/token/src/admin.rs','contracts/token/src/metadata.rs'],[('mint',TC),('set_admin',TC),('__constructor',TC)],[],['mint','set_admin','decimals','name','symbol'])
p('E01','Every accepted operation announces exactly what it did',
 'Every accepted initialisation, deposit, withdrawal, swap (each hop of a route included), bond, unbond, flow creation, distribution, funding, claim, mint, burn, transfer, approval, minter change, trade and pool creation publishes each of its events exactly once, from the contract concerned, naming the accounts and tokens really involved and stating exactly the amounts and times that took effect (amounts received by the pool, shares, amounts returned, spread, rewards paid). Rejected calls, and rewards calls that distribute or pay nothing, announce no amounts.',
 ['histories','inputs'],'all accepted calls of the event-publishing entry points of all contracts, over all histories and amounts, tokens that keep part of a transfer included',
 'Tests compare almost no events; indexers rebuild balances and volumes from them over whole histories.',
 [PC,SC,KC,RC,VC,FC,MC,DC,TC],[('env.events().publish calls',PC),('swap events',SC),('bond/unbond events',KC),('withdraw_rewards events',RC),('Claim/Mint/Burn events',VC),('Trade Token events',DC),('TokenUtils events',TC)],[],['contract events'])
p('X01','Contract state in use never expires',
 'Every accepted call, queries included, leaves each persistent record whose value it reads or writes alive for at least 29 days of ledgers and the instance of every contract it runs in for at least 6 days (29 where the contract keeps its data in its instance); exempt are initialisation, code-upgrade calls and the token metadata getters. Hence a balance, stake, pool, schedule, reward record or configuration that is used at least once per 6 days is never archived, over any history of calls and pauses.',
 ['histories','schedules'],'all call sequences over all contracts with pauses up to and beyond the extension windows, any initial lifetimes',
 'Tests never advance the ledger sequence across lifetimes.',
 ['packages/phoenix/src/ttl.rs',PS,KS,VS,'contracts/factory/src/storage.rs','contracts/stake_rewards/src/distribution.rs'],[('extend_ttl calls',PC)],[],['every entry point','entry time-to-live'])
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    assert x['statement'].count('. ')<3,x['id']
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
