#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list below is the source)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

XYK="contracts/pair/src/contract.rs"; TAX="contracts/pair_xyk_sale_tax/src/contract.rs"
STB="contracts/pair_stable/src/contract.rs"; STU="contracts/pair_stable/src/utils.rs"; STM="contracts/pair_stable/src/math.rs"
PCL="contracts/pair_concentrated/src/contract.rs"; PCU="contracts/pair_concentrated/src/utils.rs"; PCQ="contracts/pair_concentrated/src/queries.rs"
PCC="packages/astroport_pcl_common/src/"; TRM="contracts/pair_transmuter/src/contract.rs"
A="packages/astroport/src/"

p("A01","No operation by anyone lowers the pool value behind one LP share",
 "In every XYK, sale-tax XYK, stable and concentrated pool, after any sequence of deposits, withdrawals, swaps and direct token donations by any users, the pool value per LP share (sqrt(x*y), the stable invariant, or the concentrated virtual price) is never lower than before the sequence, up to a rounding of one smallest unit of each asset per operation (the price-scale changes of a concentrated pool, which spend earned profit, are covered by A13). In particular a user who deposits and withdraws, or swaps back and forth, never ends with more of one asset unless having less of the other.",
 ["histories","inputs"],"all sequences of provide (balanced, imbalanced, single-sided), withdraw, swap in both directions and donation by two users, over small and boundary amounts, fee configurations and pool curves",
 "The tests run a handful of fixed sequences; the existing property tests cover one formula, not sequences with fees, rounding and donations.",
 [XYK,TAX,STB,STU,PCL,PCU],[("share computation on provide",XYK+" execute provide_liquidity / query share"),("swap computation rounding down",XYK+" compute_swap; "+STB+" compute_swap"),("imbalanced deposit fee",STU+" mint_liquidity amount; "+PCC+"utils.rs calc_provide_fee"),("loss check",PCC+"state.rs update_price")],
 ["pool reserves and LP supply through the pool query"])
p("A02","A swap moves exactly the advertised amounts and splits fees exactly",
 "A successful swap takes exactly the offered amount from the trader, pays the receiver exactly the announced return amount, pays the fee collector and the fee-share recipient exactly their announced parts, and changes no other balance; the LP supply is unchanged. The commission equals the configured total fee on the gross output (rounded), the fee-share and maker parts are the configured fractions of it, with the maker part taken from what remains after the fee share, and the pool keeps the rest.",
 ["inputs","configurations","histories"],"every pool type, native and cw20 assets, both directions, with and without receiver, fee share and fee collector configured, over a grid of fee rates and amounts",
 "Tests check a few hand-computed swaps in one configuration each; the combination of fee share, maker fee, cw20/native, receivers and rounding is not covered.",
 [XYK,TAX,STB,PCL,TRM,A+"pair.rs"],[("swap",XYK+" swap"),("swap",TAX+" swap"),("swap",STB+" swap"),("swap",PCL+" swap"),("fee share configuration",A+"pair.rs FeeShareConfig")],
 ["bank and cw20 balances of trader, receiver, pool, fee collector, fee-share recipient"])
p("A03","Simulations predict execution exactly",
 "For every pool and for any state and request, the swap simulation query returns the same return amount, spread and commission that executing that swap in the same state yields, the withdrawal and share queries return what the withdrawal pays, and the deposit simulation returns the LP amount the deposit mints. A reverse simulation's offer amount, when executed, yields the requested amount up to rounding, and asks no more than rounding above what is needed (a concentrated pool's assumes its largest fee); asking for more than the pool holds is refused.",
 ["inputs","histories","configurations"],"all reachable small pool states of each pool type times a grid of offers, asks, deposits and withdrawals",
 "Unit tests compare a few cases per contract; agreement must hold in every state and for every amount.",
 [XYK,TAX,STB,PCQ,TRM,"contracts/pair_transmuter/src/queries.rs"],[("simulation queries",XYK+" query_simulation / query_reverse_simulation"),("simulation queries",STB+" query_simulation"),("simulation queries",PCQ+" query_simulation, query_simulate_provide, query_simulate_withdraw")],
 ["query results versus balances after execution in the same state"])
p("A04","User protection limits are always honoured",
 "In every pool whose price moves (all but the transmuter), a swap never executes when its result is worse than the trader's belief price and maximum spread allow (or the default spread where none is given), a deposit never mints fewer LP tokens than the requested minimum nor, where the pool honours a slippage tolerance, at a ratio outside it, and a withdrawal never pays less than the requested minimum assets. Spread and slippage limits above the allowed maximum are refused, and a request whose result satisfies its limits is not refused because of them.",
 ["inputs","histories"],"all pool types, over grids of limits around the exact result in many pool states",
 "Tests try one passing and one failing value in a single state and do not try every limit on every pool type.",
 [XYK,TAX,STB,PCL,TRM,A+"pair.rs",A+"asset.rs"],[("assert_max_spread",XYK+" assert_max_spread"),("assert_slippage_tolerance",XYK),("min_lp_to_receive check",XYK+" provide_liquidity"),("ensure_min_assets_to_receive",XYK+" withdraw_liquidity")],
 ["success or failure of provide, swap, withdraw; balances"])
p("A05","Withdrawals pay the pro-rata share and LP supply is exactly accounted",
 "Withdrawing burns exactly the LP tokens sent and pays the pro-rata share of each reserve rounded down (the share being a ratio of 18 decimals; the concentrated pool computes it for one LP unit less), never more, and leaves everybody else's LP balance unchanged. A deposit mints the LP tokens given by the growth of the pool's invariant, less the imbalance fee where there is one. Every LP token is minted only against a deposit and burned only by a withdrawal, and the first deposit locks a minimum amount of LP in the pool forever, so the supply never returns to zero.",
 ["histories","inputs"],"all sequences of deposits, withdrawals and swaps by two users in each pool type",
 "Tests check single withdrawals from a freshly seeded pool.",
 [XYK,TAX,STB,STU,PCL,PCC+"utils.rs",TRM],[("withdraw_liquidity",XYK),("get_share_in_assets",XYK),("MINIMUM_LIQUIDITY_AMOUNT",A+"asset.rs"),("withdraw_liquidity",PCL)],
 ["LP supply and balances, asset balances"])
p("A06","Pools only accept the declared assets, fully paid, in the declared amounts",
 "A deposit or swap succeeds only if every asset in it belongs to the pool, is listed once, and native coins are attached in exactly the declared amount while cw20 tokens are pulled or received in exactly that amount; a withdrawal succeeds only with this pool's own LP token. The amount credited is what was really received, so nobody obtains LP or swap output for tokens not paid, and no coin is silently swallowed.",
 ["inputs"],"every pool type times every small combination of declared assets, attached coins, cw20 senders and hook messages, including foreign, duplicate, missing and zero assets",
 "Tests cover a few malformed requests for some pools, not the combination space.",
 [XYK,TAX,STB,PCL,TRM,A+"asset.rs"],[("assert_coins_properly_sent",A+"asset.rs"),("check_assets / duplicate checks",STU),("receive_cw20",XYK+" receive_cw20")],
 ["success or failure, balance changes"])
p("A07","Cumulative prices are the exact time integral of the pool price",
 "Each pool's cumulative price grows between any two times by the sum, over the intervals between the deposits, withdrawals and swaps that update it, of the price in force during each interval times the elapsed seconds, independently of how many interactions happen inside one block. The queried cumulative price extends the stored one to the current time by the same rule.",
 ["histories","schedules"],"all sequences of swaps, deposits, withdrawals and time steps (0 s, short, long) up to a depth for XYK, sale-tax, stable and concentrated pools",
 "Tests check a single accumulation with fixed numbers.",
 [XYK,TAX,STU,STB,PCU],[("accumulate_prices",XYK),("accumulate_prices",STU),("accumulate_swap_sizes / accumulate_prices",PCC+"utils.rs")],
 ["cumulative price query over time"])
p("A08","Observed prices reflect only past trades within the requested window",
 "For stable and concentrated pools every trade price recorded for the observation query lies at its block time in chronological order, at most one entry per block, and the price returned for any age within the recorded window is the recorded (or linearly interpolated) price at that time; outside the window the query fails. The moving average recorded with each entry equals the average over the buffered trades (a block's trades are recorded by the next trade).",
 ["histories","schedules"],"all sequences of swaps and time steps across several wrap-arounds of small observation buffers and all query ages",
 "Tests exercise a few fixed buffers; wrap-around, same-block and interpolation combinations are unbounded.",
 [A+"observation.rs",STU,PCC+"utils.rs","packages/circular_buffer/src/lib.rs"],[("query_observation / binary_search / get_observation",A+"observation.rs"),("accumulate_swap_sizes",STU),("BufferManager",'packages/circular_buffer/src/lib.rs')],
 ["observe query"])
p("A09","Historic pool balances are answered exactly",
 "Once balance tracking is enabled, asking a pool for an asset balance at a block height returns the reserve the pool held at the start of that block, whatever deposits, swaps and withdrawals happened in that or later blocks. Heights before tracking started return nothing.",
 ["histories","schedules"],"all sequences of pool operations and block steps up to a depth and every queried height",
 "Tests check one short fixed history per pool.",
 [XYK,TAX,STB,PCL,PCC+"utils.rs"],[("BALANCES snapshot updates",XYK),("BALANCES snapshot updates",STB),("BALANCES snapshot updates",PCL)],["asset_balance_at query"])
p("A10","Curve parameters only ramp within bounds, at the promised speed",
 "Only the pool's owner (the factory owner where it has none) can start or stop changing a stable pool's amplification or a concentrated pool's amp/gamma and fee parameters; every accepted value lies within its documented limits, a change is at most tenfold and takes at least the minimum interval. Between start and end the effective value moves linearly from old to new, and stopping freezes it at its current value.",
 ["histories","inputs","schedules"],"all sequences of start/stop/promote/update messages by owner and strangers, with boundary parameters, and time steps between them",
 "Tests check single updates with hand-picked values.",
 [STB,STU,PCC+"state.rs",PCL],[("start_changing_amp / stop_changing_amp / compute_current_amp",STB),("AmpGamma validation and get_amp_gamma",PCC+"state.rs"),("PoolParams::update_params",PCC+"state.rs")],["config queries over time, swap results"])
p("A11","Sale tax is charged exactly on sales of taxed assets and nothing else",
 "Selling a taxed native asset into a sale-tax pool sends exactly the configured fraction (rounded as documented, at most the cap) of the offered amount to the configured recipient and swaps only the rest; buying a taxed asset, providing and withdrawing are never taxed. Simulations account for the tax, and only the tax configuration admin can change or hand over the tax settings.",
 ["inputs","histories","configurations"],"all tax configurations over one or both assets, both directions, grid of amounts, all configuration update messages by each role",
 "Tests run a few swaps with one tax rate.",
 [TAX,A+"pair_xyk_sale_tax.rs"],[("swap tax",TAX+" swap"),("TaxConfigChecked",A+"pair_xyk_sale_tax.rs"),("update config",TAX+" update_config")],["balances of tax recipient, trader, pool"])
p("A12","The transmuter swaps one-to-one and never lets value leak",
 "A transmuter pool exchanges its assets exactly one for one after decimal normalisation, rounding against the trader, succeeds whenever it holds enough of the asked asset, and fails otherwise. LP tokens always represent at most the normalised sum of reserves, deposits mint the normalised amount deposited, withdrawals pay the pro-rata share rounded down, or chosen assets for exactly their normalised value in LP.",
 ["inputs","histories"],"all sequences of deposits, withdrawals (pro-rata and imbalanced) and swaps over 2- and 3-asset pools with different decimals",
 "The transmuter integration tests sample a few flows; none runs in the stable test list.",
 [TRM,"contracts/pair_transmuter/src/utils.rs","contracts/pair_transmuter/src/queries.rs"],[("assert_balances, Normalize",'contracts/pair_transmuter/src/utils.rs'),("swap / provide / withdraw",TRM)],["balances, LP supply"])
p("A13","Concentrated pool repegging is always paid for by profits",
 "In a concentrated pool the price scale only moves towards the internal oracle price, by a bounded step, and a change never drops the virtual price below what the recorded profit allows (half of it stays), and it does move when the profit clearly pays for it; the virtual price of a pool in normal operation never falls below one and never declines across an operation except through a paid repeg. The oracle price moves as the half-life exponential average of past trade prices, at most once per block.",
 ["histories","schedules"],"all sequences of swaps, deposits, withdrawals and time steps up to a depth for several fee and gamma settings",
 "Tests follow a few trajectories.",
 [PCC+"state.rs",PCU,PCL],[("PoolState::update_price",PCC+"state.rs"),("half_float_pow",PCC+"math/math_f64.rs and math_decimal.rs")],["config/compute_d/lp_price queries"])
p("A14","Swap prices lie on the pool's published curve",
 "For every pool state, trade size and curve parameters, the gross output of a swap is the one given by the pool's invariant (constant product, StableSwap with the current amplification, CryptoSwap with the current amp and gamma) within rounding; output grows monotonically with input, splitting a trade never pays more, before fees, than doing it at once beyond rounding, and no trade can empty a reserve. The dynamic fee of a concentrated pool always lies between its two configured fees, where the balance of the pool after the trade puts it.",
 ["inputs","configurations"],"grids of reserves over many orders of magnitude, decimals, amplification, gamma, price scale and offer amounts, compared with an independent high-precision solver",
 "The tests check a few points, and the numerical solver has to converge everywhere.",
 [XYK,STM,STU,PCC+"math/math_decimal.rs",PCC+"state.rs"],[("compute_swap",XYK),("calc_y / compute_d",STM),("newton_d / newton_y",PCC+"math/math_decimal.rs"),("PoolParams::fee",PCC+"state.rs")],["simulation query"])
p("A15","Delisting a pool or changing the factory never touches what users have in it",
 "Deregistering a pair, registering another one for the same assets, disabling its pair type, or pointing the factory at another coin registry, generator or code never moves funds, never prevents or changes the withdrawal of a single share, and changes neither swaps nor their simulation. Concentrated pools, with or without order book, take no deposits (and simulate none) while no pair is registered for their assets; all other pools go on taking deposits at unchanged terms.",
 ["histories"],"all sequences of deposits, withdrawals, swaps by two users and of delisting, relisting, disabling and settings changes by the owner, run against a twin chain in which the factory changes nothing",
 "Tests deregister a pair only to see the lookup fail.",
 [XYK,TAX,STB,PCL,PCC+"utils.rs","contracts/pair_concentrated/src/utils.rs","contracts/pair_concentrated_duality/src/utils.rs","contracts/factory/src/contract.rs"],[("check_pair_registered",PCC+"utils.rs"),("get_assets_with_precision","contracts/pair_concentrated/src/utils.rs"),("get_precision",STB)],["balances, success or failure, simulation queries"])
p("B01","The factory registers exactly one live pair per asset set and pair type list",
 "Creating a pair is possible only for a set of distinct assets with an enabled pair type (only by the owner if the type is permissioned) and never while a pair for the same set, in any order, is registered; afterwards the pair lookup for those assets in any order returns that pair until the owner deregisters it. The pair listing contains exactly the registered pairs, pages through all of them without omission or repetition, and an unfinished creation is never visible.",
 ["histories","inputs"],"all sequences of create/deregister/update-config by owner and user over a small asset alphabet in every order, and every page size and cursor",
 "Tests create one or two pairs with fixed assets.",
 ["contracts/factory/src/contract.rs","contracts/factory/src/state.rs","contracts/factory/src/querier.rs"],[("execute_create_pair / reply / deregister",'contracts/factory/src/contract.rs'),("pair_key, read_pairs",'contracts/factory/src/state.rs')],["pair and pairs queries"])
p("B02","Factory fee configuration is validated and reported faithfully",
 "The factory accepts only pair configurations whose total and maker fees are at most 100 percent and unique per pair type, only from its owner, and the fee info, config and blacklist queries always return the latest accepted settings (with a disabled or generator-disabled type listed as blacklisted). A rejected message changes nothing.",
 ["histories","inputs"],"all sequences of config messages by owner and stranger with boundary fee values",
 "Tests check single updates.",
 ["contracts/factory/src/contract.rs","contracts/factory/src/state.rs",A+"factory.rs"],[("execute_update_config / execute_update_pair_config",'contracts/factory/src/contract.rs'),("PairConfig::valid_fee_bps",A+"factory.rs")],["config, fee_info, blacklisted_pair_types queries"])
p("B03","Ownership changes only by a timely two-step hand-over",
 "In every contract with an owner, ownership changes only when the current owner proposes a different address with a bounded lifetime and exactly that address claims it before the proposal expires and before it is dropped or replaced. Nobody else can propose, drop or claim, and a used or dropped proposal cannot be claimed again.",
 ["histories","schedules"],"all sequences up to a depth of propose/drop/claim by old owner, new owner, another candidate and a stranger, with time steps before, at and after expiry, for each contract that offers ownership transfer",
 "Tests follow the happy path plus a few rejections in some contracts.",
 [A+"common.rs","contracts/factory/src/contract.rs","contracts/tokenomics/incentives/src/execute.rs","contracts/tokenomics/maker/src/contract.rs","contracts/tokenomics/vesting/src/contract.rs",STB,PCL,"contracts/periphery/fee_granter/src/contract.rs","contracts/periphery/native_coin_registry/src/contract.rs","contracts/periphery/oracle/src/contract.rs"],[("propose_new_owner / drop_ownership_proposal / claim_ownership",A+"common.rs")],["config query, acceptance of owner-only messages"])
p("B04","Privileged messages are refused to everyone else and leave no trace",
 "Every privileged message of every contract (configuration, fees, tracking, parameters, deregistration, reward set-up, blocking, emissions, callbacks) succeeds only when sent by the role documented for it, and when refused or failed leaves all storage and balances unchanged. Internal callback messages and token receive hooks cannot be triggered by outsiders to gain anything.",
 ["inputs","configurations"],"every execute message variant of every contract times every actor (owner, admin roles, factory owner, plain user, other contracts)",
 "Tests check authorization for a subset of messages.",
 ["contracts/factory/src/contract.rs",XYK,TAX,STB,PCL,"contracts/router/src/contract.rs","contracts/tokenomics/incentives/src/execute.rs","contracts/tokenomics/maker/src/contract.rs","contracts/tokenomics/vesting/src/contract.rs","contracts/periphery/native_coin_registry/src/contract.rs","contracts/periphery/fee_granter/src/contract.rs","contracts/whitelist/src/contract.rs"],[("sender checks at the top of each handler",'contracts/*/src/contract.rs')],["success or failure of each message"])
p("C01","The router delivers at least the minimum or changes nothing",
 "A multi-hop swap through the router either delivers at least the requested minimum of the final asset to the receiver, routes the whole offered amount hop by hop leaving nothing in the router, or fails leaving every balance unchanged; only well-formed paths within the hop limit are accepted. The router's simulation and reverse simulation agree with executing the same path in the same state, and internal steps cannot be invoked from outside.",
 ["inputs","histories","configurations"],"all operation paths up to three hops over three assets and several pools, native and cw20 start, with and without receiver, minimums around the exact output, malformed paths",
 "Tests cover a few fixed routes, most against mocked pairs.",
 ["contracts/router/src/contract.rs","contracts/router/src/operations.rs"],[("execute_swap_operations / assert_operations",'contracts/router/src/contract.rs'),("minimum receive reply",'contracts/router/src/contract.rs')],["balances, simulation queries"])
p("D01","Staked LP tokens are never lost, mixed or spent",
 "The incentives contract always holds, for every LP token, exactly the sum of all users' recorded stakes, and the recorded pool total equals that sum; a user can withdraw at any time exactly what they deposited and nobody else's, whatever happens to rewards, deactivation, blocking or ownership. Deposits on behalf of another credit the named user, with the deposited amount.",
 ["histories"],"all sequences of deposit, withdraw, claim, reward and admin operations by two users on two pools up to a depth, with native and cw20 LP tokens",
 "Tests follow a few scenarios.",
 ["contracts/tokenomics/incentives/src/execute.rs","contracts/tokenomics/incentives/src/state.rs","contracts/tokenomics/incentives/src/utils.rs"],[("deposit/withdraw, PoolInfo::update_rewards, total_lp",'contracts/tokenomics/incentives/src/state.rs')],["deposit, pool_info queries, balances"])
p("D02","Staking rewards are shared pro rata by time staked and are always covered",
 "Each reward's emission per second is divided among stakers in proportion to their stake at each moment: over any history each user's total claimed plus pending amount equals the time integral of their share up to rounding down, regardless of who claims, deposits or withdraws when. The contract's balance of each external reward token always covers all pending claims, orphaned amounts and future emissions, so that no claim can fail for lack of funds.",
 ["histories","schedules"],"all sequences of deposit/withdraw/claim by two users, incentivize, schedule end and time steps across epoch boundaries up to a depth, compared with an exact integral",
 "Tests use long fixed scenarios with tolerance checks; every interleaving of claims and schedule boundaries must agree.",
 ["contracts/tokenomics/incentives/src/state.rs","contracts/tokenomics/incentives/src/utils.rs","contracts/tokenomics/incentives/src/execute.rs"],[("update_rewards / calculate_rewards / claim_finished_rewards",'contracts/tokenomics/incentives/src/state.rs'),("claim_rewards",'contracts/tokenomics/incentives/src/utils.rs')],["pending_rewards query, claims"])
p("D03","Protocol emissions are split among active pools by allocation points",
 "At all times the protocol reward is emitted at the configured rate and divided among active pools by their allocation points; inactive, deactivated, deregistered or blocked pools receive nothing from that moment on, and changing the set-up never changes rewards already earned. Total emitted never exceeds rate times elapsed time.",
 ["histories","schedules"],"all sequences of setup_pools, set_tokens_per_second, deregistration, blocking, deposits and time steps up to a depth on three pools",
 "Tests follow a few sequences.",
 ["contracts/tokenomics/incentives/src/execute.rs","contracts/tokenomics/incentives/src/utils.rs","contracts/tokenomics/incentives/src/state.rs"],[("setup_pools, set_tokens_per_second, deactivate_pool, update_blocked_pool_tokens",'contracts/tokenomics/incentives/src/execute.rs')],["active_pools, reward_info, pending_rewards queries"])
p("D04","External reward schedules pay out exactly what was funded",
 "An incentive schedule needs its full funding (plus the listing fee for a new reward token) up front, runs from now to the end of the requested number of weekly epochs, adds its rate to those already running, and over its life emits no more than was deposited. Removing a reward returns exactly the not yet emitted remainder, and rewards emitted while nobody was staked stay recoverable by stakers or the owner exactly once.",
 ["histories","schedules","inputs"],"all sequences of overlapping incentivize, removal, orphan claims, staking and time steps over epoch boundaries up to a depth",
 "Tests check a few overlapping schedules.",
 ["contracts/tokenomics/incentives/src/execute.rs","contracts/tokenomics/incentives/src/state.rs","contracts/tokenomics/incentives/src/utils.rs",A+"incentives.rs"],[("IncentivesSchedule::from_input",A+"incentives.rs"),("incentivize / remove_reward / claim_orphaned_rewards",'contracts/tokenomics/incentives/src/execute.rs')],["external_reward_schedules query, balances"])
p("D05","Blocked tokens, reward caps and listings are enforced",
 "While a token is blocked, no pool containing it can be set up for or keep protocol emissions and it cannot be added as an external reward; a pool never gets more than the maximum number of external reward tokens (ASTRO alone may exceed it); only registered pairs of allowed types can be incentivized. The listing queries return every staker, pool and blocked token exactly once over their pages and never more than the page limit.",
 ["histories","inputs"],"all sequences of block/unblock, setup, incentivize with many reward tokens, and all page sizes and cursors",
 "Tests try single cases.",
 ["contracts/tokenomics/incentives/src/execute.rs","contracts/tokenomics/incentives/src/query.rs","contracts/tokenomics/incentives/src/state.rs","contracts/tokenomics/incentives/src/utils.rs"],[("is_pool_registered, assert_caller_and_get_pool, blocked token checks",'contracts/tokenomics/incentives/src/utils.rs'),("MAX_REWARD_TOKENS",A+"incentives.rs")],["queries, success or failure"])
p("E01","Collected fees are all accounted for and split as configured",
 "Each fee collection swaps only the requested assets along configured routes and then distributes the resulting reward token so that second receiver, governance, development fund and stakers together get exactly what was available, each the configured fraction up to rounding. Fees accrued before rewards were enabled are released linearly over the configured number of blocks (at least one unit per block), in total exactly the accrued amount; shares of more than the whole are never paid.",
 ["histories","configurations","inputs"],"all sequences of collect, enable rewards, config changes, block steps and fee arrivals over a grid of split configurations",
 "Tests check one configuration per feature against mocks.",
 ["contracts/tokenomics/maker/src/contract.rs","contracts/tokenomics/maker/src/utils.rs",A+"maker.rs"],[("collect / distribute / set_second_receiver / dev fund",'contracts/tokenomics/maker/src/contract.rs')],["balances of governance, staking, second receiver, dev fund, maker"])
p("E02","Fee collection is rate limited, seizing only goes to the appointed receiver",
 "Permissionless collection honours the cooldown; only the owner can change configuration, routes and seize settings, with invalid routes (missing pools, wrong assets, too deep) refused; seizing moves only seizable assets and only to the configured receiver, up to the requested limit. Collection never spends the reward token itself, an asset that is neither requested nor passed on the way, or more than the requested limit of an asset that is not passed on the way (all of a token passed on the way is swapped; a limit of zero is no limit).",
 ["histories","inputs","schedules"],"all sequences of bridge updates, collect, seize and time steps around the cooldown up to a depth",
 "Tests cover single actions.",
 ["contracts/tokenomics/maker/src/contract.rs","contracts/tokenomics/maker/src/utils.rs"],[("collect cooldown, seize, update_bridges",'contracts/tokenomics/maker/src/contract.rs'),("validate_bridge",'contracts/tokenomics/maker/src/utils.rs')],["balances, success or failure"])
p("F01","The staking share price never falls and value is conserved",
 "In the staking contract, after any sequence of staking, unstaking and donations, the deposited token backing each share never decreases beyond rounding, entering mints the pro-rata shares rounded down, leaving burns the shares sent and returns the pro-rata deposit rounded down, and no sequence by any set of users extracts more than they put in plus their share of donations. The first stake permanently locks the minimum so that later stakers cannot be diluted to nothing without loss to the attacker.",
 ["histories","inputs"],"all sequences of enter, leave and donate by two users with small, boundary and large amounts up to a depth",
 "The staking tests sample a few fixed flows; none is in the stable list.",
 ["contracts/tokenomics/staking/src/contract.rs"],[("execute_enter / execute_leave / MINIMUM_STAKE_AMOUNT",'contracts/tokenomics/staking/src/contract.rs')],["balances, total_shares, total_deposit queries"])
p("F02","Historic staking balances and supply are exact at any timestamp",
 "A user's share balance and the total share supply at a past timestamp, as reported by staking, equal what they were at that time, for every history of stakes, unstakes and share transfers including several in one block. Queries without a timestamp return the current values.",
 ["histories","schedules"],"all sequences of enter, leave, transfer and time steps up to a depth and every queried timestamp",
 "No running test covers staking together with the tracker.",
 ["contracts/tokenomics/staking/src/contract.rs"],[("balance_at / total_supply_at","contracts/tokenomics/staking/src/contract.rs")],["balance_at, total_supply_at queries"])
p("G01","Vesting releases exactly the scheduled amount over time, never more",
 "For every set of vesting schedules, the amount claimable plus claimed at any time equals the sum of each schedule's start amount plus its linear release (zero before start, the full end amount after end), claims can be split arbitrarily without changing the total, and claims above what is available fail. The contract always holds at least everything registered and not yet paid out, registration requires full funding, and an owner withdrawal from an active schedule reduces exactly that schedule's future release.",
 ["histories","schedules","inputs"],"all sequences of register, claim (full, partial, to others), withdraw-from-active-schedule and time steps around schedule boundaries up to a depth",
 "Tests check a few points of a single schedule.",
 ["contracts/tokenomics/vesting/src/contract.rs","contracts/tokenomics/vesting/src/state.rs",A+"vesting.rs"],[("compute_available_amount, claim, register_vesting_accounts, withdraw_from_active_schedule",'contracts/tokenomics/vesting/src/contract.rs')],["available_amount, vesting_account(s) queries, balances"])
p("H01","xASTRO token supply and allowances are conserved",
 "The xASTRO token's total supply always equals the sum of all balances; transfers, sends and allowance-based moves move exactly the stated amount with a sufficient balance and unexpired allowance and reduce that allowance by it; only the minter mints, within the cap, and only the minter burns. The listing of accounts names every holder exactly once, page by page. A failed operation changes nothing.",
 ["histories","inputs"],"all sequences of mint, burn, transfer, send, allowance and transfer-from operations by three accounts up to a depth against a reference ledger",
 "Tests check single operations.",
 ["contracts/tokenomics/xastro_token/src/contract.rs","contracts/tokenomics/xastro_token/src/state.rs"],[("execute_transfer, execute_mint, execute_burn, execute_send, *_from",'contracts/tokenomics/xastro_token/src/contract.rs')],["balance, token_info, allowance queries"])
p("H02","xASTRO balance and supply history is exact at every height",
 "The xASTRO token reports for every past block height the balance each account had at the beginning of that block and the total supply recorded for that height, for every history of mints, burns and transfers including several in one block. Later operations never change answers about the past.",
 ["histories","schedules"],"all sequences of token operations and block steps up to a depth and all queried heights",
 "Tests check one fixed history.",
 ["contracts/tokenomics/xastro_token/src/contract.rs","contracts/tokenomics/xastro_token/src/state.rs"],[("BALANCES SnapshotMap, TOTAL_SUPPLY_HISTORY, capture_total_supply_history",'contracts/tokenomics/xastro_token/src/contract.rs')],["balance_at, total_supply_at queries"])
p("H03","The token tracker mirrors bank balances at every height or second",
 "For the tracked denom, the tracker's balance of any account at a past height (or second) equals the bank balance at the start of that unit, its total supply answers equal the supply at the start of that unit, and its current answers equal the bank, for every history of mints, burns and transfers that reach its hook; the hook is accepted only from the chain and only for its denom. Several transfers in one unit leave one consistent record.",
 ["histories","schedules"],"all sequences of mint, burn, transfer, self-transfer and block steps by three accounts, in both tracking modes, and all queried units",
 "Its tests do not run offline, and fixed histories cannot cover all orders.",
 ["contracts/periphery/tokenfactory_tracker/src/contract.rs","contracts/periphery/tokenfactory_tracker/src/query.rs","contracts/periphery/tokenfactory_tracker/src/state.rs"],[("block_before_send / sudo",'contracts/periphery/tokenfactory_tracker/src/contract.rs')],["balance_at, total_supply_at queries"])
p("I01","The oracle reports the time-weighted average price of the last full period",
 "The oracle's stored average always equals the pool's cumulative price difference divided by the elapsed time between its last two successful updates, updates succeed only after a full period, and consult multiplies the amount by that average (or falls back to the pool's spot simulation before the first update). Only the pair's own assets can be consulted.",
 ["histories","schedules"],"all sequences of swaps, time steps around the period and updates up to a depth on XYK pools",
 "Tests use mocked cumulative prices.",
 ["contracts/periphery/oracle/src/contract.rs","contracts/periphery/oracle/src/querier.rs"],[("update / consult",'contracts/periphery/oracle/src/contract.rs')],["consult query"])
p("I02","The native coin registry stores valid decimals and pages completely",
 "The registry holds for each denom exactly the last decimals accepted for it, within the allowed range; only the owner can overwrite or remove entries, permissionless registration needs proof of holding the coin, refunds it in full and never overwrites an entry. Listing returns each entry exactly once in order over any page size.",
 ["histories","inputs"],"all sequences of add, register, remove by owner and user over a small denom alphabet up to a depth against a reference map, and all cursors and limits",
 "Tests check single calls.",
 ["contracts/periphery/native_coin_registry/src/contract.rs","contracts/periphery/native_coin_registry/src/state.rs"],[("add/register/remove",'contracts/periphery/native_coin_registry/src/contract.rs')],["native_token(s) queries, balances"])
p("I03","Fee grants match the records and only admins can issue them",
 "The fee granter issues and revokes chain fee allowances only on request of the owner or an admin, one per grantee, with the granted amount attached as funds, its list of grants equals the allowances granted and not revoked, and only the owner changes the admins (within their maximum number). Funds leave only through the privileged transfer.",
 ["histories","inputs"],"all sequences of grant, revoke, transfer and admin updates by owner, admin and stranger up to a depth, and all pages",
 "Its integration tests check single flows.",
 ["contracts/periphery/fee_granter/src/contract.rs","contracts/periphery/fee_granter/src/query.rs","contracts/periphery/fee_granter/src/state.rs"],[("grant/revoke/transfer_coins/update_admins",'contracts/periphery/fee_granter/src/contract.rs')],["emitted chain messages, queries"])
p("I04","Token conversions are exactly one to one and fully backed",
 "The ASTRO converter and the converter pool exchange old for new tokens exactly one to one, in one direction, only for the configured tokens, so that every new token paid out corresponds to one old token received; burning or bridging for burning uses exactly the old tokens received. The xASTRO wrapper pool only exchanges through staking and returns everything staking paid.",
 ["histories","inputs"],"all sequences of conversions, wrong tokens, burns and bridge transfers by two users up to a depth for native and cw20 configurations, and every pool message",
 "Tests check single conversions.",
 ["contracts/periphery/astro_converter/src/contract.rs","contracts/periphery/astro_converter_neutron/src/contract.rs","contracts/pair_astro_converter/src/contract.rs","contracts/pair_xastro/src/contract.rs"],[("convert, burn, ibc_transfer_for_burning",'contracts/periphery/astro_converter/src/contract.rs'),("swap",'contracts/pair_xastro/src/contract.rs')],["balances, emitted messages, simulation queries"])
p("I05","The whitelist proxy forwards only for its admins and freezing is final",
 "The whitelist contract executes messages only for current admins and forwards exactly the messages given; the admin list changes only by an admin while mutable and never again once frozen.",
 ["histories"],"all sequences of execute, freeze and update-admins by two admins and a stranger up to a depth against a reference model",
 "No test of the contract runs.",
 ["contracts/whitelist/src/contract.rs"],[("execute_execute / freeze / update_admins via cw1-whitelist",'contracts/whitelist/src/contract.rs')],["emitted messages, admin_list and can_execute queries"])
p("J01","The circular buffer always holds the last pushed values in order",
 "After any sequence of single and batch pushes, reads at any index and storage round trips, the circular buffer holds exactly the most recent values up to its capacity at the positions reported, reports existence of slots correctly, and never exposes an overwritten or foreign value. Pushing more than the capacity at once keeps the newest values, and reading beyond the capacity by index is refused.",
 ["histories","inputs"],"all sequences of push, batch push and commit over capacities 1..4 up to a depth, with every read range and array start, against a reference queue",
 "Unit tests run a few fixed sequences.",
 ["packages/circular_buffer/src/lib.rs"],[("BufferManager push/commit/read",'packages/circular_buffer/src/lib.rs')],["public API of the buffer"])
p("K01","Auto-staking and mint-for-others credit the intended user exactly",
 "Providing liquidity with auto-stake leaves the minted LP staked in the incentives contract under the chosen receiver (default the sender), in exactly the amount that would otherwise have been minted to them, and never leaves LP stuck in the pool beyond the locked minimum. Without auto-stake the LP goes to the receiver. A pool that cannot stake refuses a deposit that asks for it.",
 ["histories","inputs"],"every pool type times receiver, auto-stake and first/later deposit combinations in sequences with staked withdrawals",
 "Tests cover it for one pool with a fixed amount.",
 [XYK,TAX,STB,PCL,A+"token_factory.rs","contracts/tokenomics/incentives/src/execute.rs"],[("mint_liquidity_token_message",A+"utils or contracts/pair/src/contract.rs")],["LP balances, deposit query"])
DU="contracts/pair_concentrated_duality/src/"
p("L01","Liquidity in the order book stays the pool's and within everyone's reach",
 "The concentrated pool that places part of its liquidity in the chain's order book always reports reserves equal to its own balance plus what its orders hold (unsold tokens and proceeds). At any moment, whatever was traded in the order book and whether or not orders could be placed, every provider can withdraw and receives the reported share, swaps execute as simulated, and the owner can switch the order book off and gets everything back; while it is off no order remains. Only the configured executor may synchronise and only the owner changes the order book's settings, which moves no funds out of the pool.",
 ["histories","schedules","configurations"],"all sequences of deposits, withdrawals, swaps, donations, partial and complete purchases from the pool's orders, competing orders of a market maker, synchronisations and settings changes up to a depth, with both forms in which the module reports empty amounts",
 "The contract's tests need a chain binary and fixed scripts; the order-book state seen by each operation depends on what others traded in between.",
 [DU+"execute.rs",DU+"reply.rs",DU+"orderbook/state.rs",DU+"orderbook/execute.rs",DU+"orderbook/utils.rs"],[("query_ob_liquidity, cancel_orders, deploy_orders",DU+"orderbook/state.rs"),("order callback",DU+"reply.rs"),("Liquidity::total",DU+"orderbook/utils.rs")],
 ["pool, share and simulation queries, balances, orders in the order-book module"])
p("L02","Order book trades are accounted for as the swaps they replace",
 "What was bought from the pool's resting orders is accounted for by the next deposit, withdrawal, swap or synchronisation, whichever comes first: the fee collector and the fee-share recipient receive their configured parts of the highest fee on exactly the amounts sold, once; the price the pool learns lies between the lowest and the highest price traded; an operation has the same outcome as if the pool had been synchronised just before it; and the value behind an LP share never falls below what it was when the orders were placed, except for price-scale moves paid from profit. Such trades can always be accounted for, also when both sides were traded.",
 ["histories","schedules"],"all sequences as for L01, each followed by a synchronisation in a twin of the state",
 "No test trades on both sides, or compares an operation with its synchronised twin.",
 [DU+"orderbook/execute.rs",DU+"orderbook/state.rs",DU+"execute.rs"],[("process_cumulative_trades, sync_pool_with_orderbook",DU+"orderbook/execute.rs"),("fetch_cumulative_trades",DU+"orderbook/state.rs"),("processing at the start of provide, withdraw and swap",DU+"execute.rs")],
 ["balances, config and pool queries before and after"])
p("L03","Orders are placed as configured and never sell cheaper than the pool",
 "Whenever the order book is enabled, after each deposit, withdrawal, swap and synchronisation the pool has exactly the configured number of orders on each side, each of the configured part of its reserves, or none if one side would fall below its smallest order size; nothing is placed while it is disabled. The first k orders of a side together cost what the pool's published curve asks for that amount at the highest fee, raised by the price adjustment, so that nobody buys from the orders for less than the pool itself would ask.",
 ["histories","configurations"],"all sequences as for L01, checked after every operation that places orders",
 "One unit test checks the prices of one balanced pool.",
 [DU+"orderbook/utils.rs",DU+"orderbook/state.rs"],[("construct_orders, collect_spot_orders, price_to_duality_notation",DU+"orderbook/utils.rs"),("deploy_orders",DU+"orderbook/state.rs")],
 ["orders in the order-book module, simulation and config queries"])
p("M01","Broken calls and refused upgrades never corrupt state",
 "Any message that fails, at any step of its chain of sub-calls, leaves all balances and stored settings as they were, and no failure of an external reward token, hook or recipient can block a user from withdrawing stake or liquidity, or the owner from removing that reward. A contract upgrade is accepted only from the documented previous versions of the same contract and preserves settings, reserves and positions.",
 ["fault_sequences","histories","configurations"],"every call of every user flow failed at every sub-call point, every contract with every stored name/version pair in a small alphabet",
 "Tests do not inject failures into sub-calls.",
 ["contracts/tokenomics/incentives/src/reply.rs","contracts/factory/src/migration.rs","contracts/pair/src/migration.rs","contracts/pair_stable/src/migration.rs","contracts/tokenomics/incentives/src/utils.rs"],[("reply handlers",'contracts/*/src/reply.rs'),("migrate entry points",'contracts/*/src/migrat*.rs')],["state before and after"])
p("N01","Settings hold what was asked for; settings that make no sense are refused",
 "Every contract accepts its deployment message exactly when all of its settings are valid and consistent with each other (addresses, denominations, fee, amplification and curve limits, at most the allowed shares and cool-downs, assets that are distinct and known, no duplicate pool types or admins, a converter's two tokens and burn route, a pool that exists for an oracle); afterwards its queries report exactly these settings, and its token belongs to it. A later change of settings by the owner alters exactly the settings it names, under the same rules, and nothing else. The former xASTRO token's marketing record and logo are changed by the account named in it only, and hold what was given.",
 ["configurations","histories"],"the full product (for the largest messages: all combinations of up to three deviations) of valid, boundary and invalid values of every field of every deployment message; all sequences of partial settings changes of the incentives and maker contracts and of marketing changes up to a depth",
 "Tests deploy each contract with one or two settings; combinations and boundaries are not covered.",
 ["contracts/tokenomics/incentives/src/instantiate.rs","contracts/tokenomics/maker/src/contract.rs",PCL,STB,XYK,TAX,TRM,"contracts/factory/src/contract.rs",PCC+"state.rs","contracts/tokenomics/xastro_token/src/contract.rs","contracts/periphery/astro_converter/src/contract.rs","contracts/pair_astro_converter/src/migration.rs"],[("instantiate entry points","contracts/*/src/contract.rs"),("parameter limits",PCC+"consts.rs, state.rs update_params"),("token info validation",A+"xastro_token.rs validate"),("update_config","contracts/tokenomics/*/src")],["config, pair and other settings queries"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
