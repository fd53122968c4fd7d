TODO = None
H = "histories"
prop("C01", "The exchange is solvent in every token",
 "At every moment, for every token, the exchange's real token balance covers everything it owes: all users' deposits, the reserves of all pools, the lost-and-found and what is already under way to a recipient. No operation, failed transfer or refund makes it short, and apart from rounding dust nothing is attributed to nobody.",
 "histories schedules fault_sequences inputs",
 "every history of user, owner and peer operations, every order of the receipts they cause, every failing transfer, every token precision",
 "the tests follow a few scripted flows with all receipts succeeding in order; solvency is a sum over all accounts and pools after every receipt of every history",
 "lib.rs account_deposit.rs account_lostfound.rs token_receiver.rs pool.rs stable_swap/mod.rs",
 [("deposits are debited before anything leaves", "account_deposit.rs: internal_withdraw, internal_send_tokens"), ("a failed transfer is credited back", "account_deposit.rs: exchange_callback_post_withdraw"), ("pool amounts are rounded towards the pool", "stable_swap/mod.rs, rated_swap/mod.rs, degen_swap/mod.rs")],
 state=[("deposits and reserves", "what is owed", "lib.rs: Contract")],
 observe=["get_deposits", "get_pool_detail_infos", "list_lostfound_tokens", "the token contracts' balances"],
 level="stateful histories with scheduled receipts and injected failures against a ledger invariant checked after every receipt")
prop("C02", "Pool shares are conserved",
 "For every pool the total supply of shares equals the sum of the shares of all holders at all times. Shares are created only for added liquidity and as the protocol's and referrer's part of a trading fee, destroyed only by removing liquidity, and merely moved by transfers, donations and liquidations; an account that took no part keeps its shares.",
 "histories inputs configurations", "every history over every kind of pool with every fee configuration",
 "tests look at the shares of one or two accounts after one operation; conservation is over all accounts and any history",
 "simple_pool.rs stable_swap/mod.rs rated_swap/mod.rs degen_swap/mod.rs multi_fungible_token.rs donation.rs shadow_actions.rs",
 [("mint_shares / burn", "simple_pool.rs, stable_swap/mod.rs: mint_shares, remove_liquidity"), ("share_transfer", "simple_pool.rs: share_transfer"), ("administrator's fee shares", "admin_fee.rs")],
 observe=["get_pool_shares", "mft_total_supply", "mft_balance_of"],
 level="stateful histories, share ledger reconciled with every operation's cause")
prop("C03", "Liquidity in a constant-product pool never loses value to others",
 "In a constant-product pool no swap, liquidity addition or liquidity removal, of any size and by anyone, lowers the product of the reserves per squared share. Nobody can take out more than they put in by adding and removing liquidity or by swapping back and forth.",
 "inputs histories configurations", "every reserve, fee, trade size and sequence, including extreme ratios and tiny amounts",
 "rounding direction only shows at particular amounts; tests sample a handful of round numbers",
 "simple_pool.rs lib.rs admin_fee.rs",
 [("rounding in add_liquidity / remove_liquidity", "simple_pool.rs: add_liquidity, remove_liquidity"), ("invariant check in swap", "simple_pool.rs: swap")],
 observe=["get_pool", "get_pool_shares"], level="generated trades and histories against an exact big-integer invariant and round-trip profit")
prop("C04", "Constant-product trades settle to the exact formula",
 "A swap in a constant-product pool pays exactly the constant-product amount for the input after the pool's fee, rounded in the pool's favour, and a swap for a fixed output charges the corresponding exact input rounded up. Reserves change by exactly what was taken in and paid out, liquidity is minted and redeemed in exact proportion rounded down, and no other balance changes.",
 "inputs histories configurations", "all reserves, fees, amounts and chains of hops, by input and by output",
 "tests check a few constants; the claim is exactness for every input",
 "simple_pool.rs lib.rs action.rs", [("internal_get_return", "simple_pool.rs"), ("swap / swap_by_output", "simple_pool.rs, lib.rs")],
 observe=["swap", "swap_by_output", "add_liquidity", "remove_liquidity"], level="differential test against an independent big-integer model of pool, deposits and fees")
prop("C05", "Stable, rated and degen pools price by the exact invariant curve",
 "Swaps and liquidity operations in stable, rated and degen pools give the amounts the published curve gives for the current amplification and rates or prices, up to rounding in the pool's favour. No sequence of them lowers the value of a share beyond rounding, whichever decimals, rates, balances and fees are in force. What would leave a reserve below the documented minimum is refused.",
 "inputs histories configurations", "every balance vector, amplification, rate, fee and decimals combination the pools accept",
 "iteration, scaling and rounding interact; tests sample near-balanced pools of two or three tokens with round amounts",
 "stable_swap/mod.rs stable_swap/math.rs rated_swap/mod.rs rated_swap/math.rs degen_swap/mod.rs degen_swap/math.rs",
 [("compute_d, compute_y", "stable_swap/math.rs"), ("compute_lp_amount_for_deposit / for_withdraw", "stable_swap/math.rs"), ("rate scaling", "rated_swap/math.rs: pow/mul/div by rates"), ("reserve floor", "stable_swap/mod.rs: MIN_RESERVE")],
 observe=["get_stable_pool", "get_rated_pool", "get_degen_pool", "swap", "add_stable_liquidity"], level="differential test against an independent exact big-integer solver of the curve, plus value-per-share monotonicity over histories")
prop("C06", "Nobody gets less, or pays more, than the bounds they set",
 "Whenever a trade, liquidity addition, liquidity removal or liquidation succeeds, every bound its caller gave is respected by what really happened: minimum outputs, maximum inputs, minimum shares, maximum burned shares and minimum token amounts. When a bound cannot be met the whole operation fails and changes nothing.",
 "inputs histories", "every operation with bounds placed exactly at, just below and just above what is attainable",
 "a bound is respected at the exact threshold for all amounts, not at the two samples of a test",
 "lib.rs simple_pool.rs stable_swap/mod.rs rated_swap/mod.rs degen_swap/mod.rs token_receiver.rs shadow_actions.rs",
 [("min_amount_out / max_amount_in", "lib.rs: internal_pool_swap, internal_pool_swap_by_output"), ("min_shares, max_burn_shares", "stable_swap/mod.rs"), ("min_amounts", "simple_pool.rs: remove_liquidity, lib.rs: add_liquidity")],
 observe=["swap", "swap_by_output", "execute_actions", "add_liquidity", "add_stable_liquidity", "remove_liquidity", "remove_liquidity_by_tokens", "on_burrow_liquidation"], level="metamorphic: each operation is run on forks of one state with its bound at, below and above the observed result")
prop("C07", "Quotes and predictions equal what then happens",
 "In any given state, the public quotes for a swap (by input or by output) and the predictions for adding or removing liquidity return exactly the amount the operation then produces when executed in that state. Whatever quote a user reads is neither better nor worse than execution.",
 "inputs histories configurations", "every reachable pool state and every amount",
 "quotes are separate code from execution; tests compare them on a few amounts",
 "views.rs pool.rs simple_pool.rs stable_swap/mod.rs rated_swap/mod.rs degen_swap/mod.rs",
 [("get_return*, predict_*", "views.rs")], observe=["get_return", "get_return_by_output", "get_rated_return", "get_degen_return", "predict_add_stable_liquidity", "predict_remove_liquidity", "predict_remove_liquidity_by_tokens"], level="differential: view against execution on forks of generated states")
prop("C08", "Every withdrawal settles exactly once",
 "A withdrawn amount leaves the user's deposit once and either arrives at the user once or, if the transfer fails, is credited back in full once: to the user, or if the account is gone or cannot hold it, where it can be claimed or recovered. Nothing is lost, doubled or paid to anyone else, for plain tokens as well as unwrapped NEAR, whatever else happens before the transfer is settled.",
 "histories schedules fault_sequences", "every interleaving of withdrawals with other operations, and every failing transfer",
 "the outcome depends on what happens between the transfer and its callback; tests run each withdrawal to completion first",
 "account_deposit.rs account_lostfound.rs", [("withdraw and its callbacks", "account_deposit.rs: withdraw, exchange_callback_post_withdraw, exchange_callback_post_withdraw_near"), ("lost-and-found", "account_lostfound.rs")],
 observe=["withdraw", "claim_lostfound", "get_deposit", "token balances", "NEAR balances"], level="stateful histories with scheduled receipts and injected transfer failures, per-withdrawal accounting")
prop("C09", "An instant swap is all-or-nothing and pays the right account",
 "A token transfer that carries swap instructions either executes them completely, sends the exact output to the sender or the named recipient and keeps the input, or fails and returns the full input. It leaves the sender's and everyone else's deposits as they were, and output that cannot be delivered is credited to an account of the recipient or sender or stays claimable.",
 "inputs schedules fault_sequences histories", "all instruction messages, recipients, failing output transfers and unregistered parties",
 "messages, recipient states and delivery failures combine; tests cover a few successful routes",
 "token_receiver.rs lib.rs account_deposit.rs", [("ft_on_transfer", "token_receiver.rs"), ("internal_send_tokens", "account_deposit.rs"), ("virtual account", "token_receiver.rs, lib.rs")],
 observe=["ft_on_transfer", "ft_resolve_transfer", "token balances"], level="generated messages with injected delivery failures against a settlement oracle built from direct execution on a fork")
prop("C10", "A one-step zap is atomic and returns every leftover",
 "A transfer that swaps and adds liquidity in one step either does all of it or returns the full input with no change. When it succeeds the sender gets the shares that the liquidity mints and every token amount not used, as deposits or by transfer, and no one else's deposits or shares change.",
 "inputs histories", "all combinations of swap routes, target pools, amounts and bounds, for registered and unregistered senders",
 "combinations of routes and several target pools are unbounded; tests run a few",
 "token_receiver.rs lib.rs", [("internal_hotzap / add_liquidity in a virtual account", "token_receiver.rs")], observe=["ft_on_transfer"], level="generated zap messages against the equivalent sequence of ordinary operations on a fork")
prop("C11", "Multi-token transfers move exactly the amount and settle once",
 "Transferring pool shares or inner deposits moves exactly the amount from sender to a registered receiver, never more than the sender's freely available amount, and changes nothing else. With a receiver callback the receiver keeps exactly what it did not return and the rest comes back once (to the sender, or to the exchange's own account when the sender no longer has one), also when the receiver fails, lies, has already spent it or is gone.",
 "histories schedules fault_sequences inputs", "all token ids, amounts, receivers, receiver answers and interleavings with the receiver's and sender's own operations",
 "the refund depends on balances at settlement time; tests settle immediately with a cooperative receiver",
 "multi_fungible_token.rs", [("internal_mft_transfer, mft_resolve_transfer", "multi_fungible_token.rs")], observe=["mft_transfer", "mft_transfer_call", "mft_transfer_all_call", "mft_balance_of"], level="stateful histories with scheduled receipts and misbehaving receivers against a ledger model")
prop("C12", "Shares staked through a shadow cannot move until released",
 "Shares locked for the farm or for the lending market are still the user's, but can not be transferred, donated or removed while locked, and each lock never exceeds the user's shares. Locks recorded by the exchange match the confirmed records at the farm and the lending market once every call is settled, apart from what a liquidation releases by force, and a refused lock or release leaves the record as before.",
 "histories schedules fault_sequences", "every interleaving of lock and release calls, failures of the peers, and other operations on the same shares",
 "locks change in asynchronous callbacks; tests run them one at a time",
 "shadow_actions.rs account_deposit.rs multi_fungible_token.rs donation.rs lib.rs", [("free shares", "account_deposit.rs: free_shares"), ("shadow callbacks", "shadow_actions.rs: callback_on_shadow")],
 observe=["get_shadow_records", "shadow_action", "get_pool_shares"], level="stateful histories with scheduled receipts and failing peers against a lock model")
prop("C13", "A liquidation takes exactly what the lending market claims",
 "Only the lending market can liquidate, only shares that the debtor has locked there, and never more than the amount it names. The removed liquidity goes in full to the named liquidator with its minimum amounts respected, the debtor loses exactly those shares and their locks, and every other account is unaffected.",
 "histories inputs fault_sequences", "all lock configurations, amounts, liquidators and farm failures",
 "the farm lock, free shares and amount interact in several cases; tests cover one or two",
 "shadow_actions.rs", [("on_burrow_liquidation", "shadow_actions.rs"), ("farm lock release", "shadow_actions.rs: callback_on_burrow_liquidation")], observe=["on_burrow_liquidation", "get_shadow_records", "get_pool_shares", "get_deposits"], level="generated positions and liquidations against an exact model")
prop("C14", "Storage is paid for by its user and NEAR is never lost",
 "Every account's recorded storage need is covered by the NEAR it deposited after each of its own operations, only the uncovered remainder can be withdrawn, and what is left is returned exactly when it leaves. The exchange's NEAR changes only by deposits for storage, their withdrawals and one-yocto fees, so that it always holds what it owes to its users.",
 "histories inputs schedules", "all histories of registrations, deposits, trades and departures with any attached amount",
 "tests look at single storage calls; the NEAR balance is a sum over the whole history",
 "account_deposit.rs storage_impl.rs lib.rs shadow_actions.rs", [("storage_usage / storage_available", "account_deposit.rs"), ("internal_check_storage", "lib.rs"), ("storage_withdraw, storage_unregister", "storage_impl.rs")], observe=["storage_balance_of", "get_user_storage_state", "NEAR balances"], level="stateful histories against a NEAR ledger model")
prop("C15", "Only the authorised accounts can administer",
 "Every administrative operation of the exchange takes effect only when called by the owner, or by a guardian where guardians are allowed, with the required confirmation deposit; from anyone else it fails and changes nothing. Internal settlement entry points are refused to everybody but the exchange itself, the lending market's entry point to everybody but the lending market, and the authorised caller is not refused.",
 "inputs histories configurations", "all methods, callers, arguments and attached deposits, in any state including paused and after ownership changes",
 "a matrix of methods by roles by deposits in varied states; tests try a few pairs",
 "owner.rs lib.rs client_echo_limit.rs shadow_actions.rs account_deposit.rs multi_fungible_token.rs", [("assert_owner, is_owner_or_guardians, assert_one_yocto", "owner.rs"), ("private callbacks", "lib.rs: #[private]")], observe=["all change methods"], level="generated caller/method/deposit matrix in generated states against a role table, including every exported method")
prop("C16", "A paused exchange moves no value, and only the owner resumes it",
 "While the exchange is paused every operation of users that would move deposits, shares or locks, and every withdrawal of collected fees, is refused and changes nothing; incoming token transfers are returned in full, and transfers under way before the pause still settle (liquidations by the lending market are not paused). Owner and guardians can pause, only the owner can resume, and after resuming everything works as before.",
 "histories schedules", "every user operation, at any point of any history, with transfers under way",
 "tests pause in one state and try a few operations",
 "lib.rs owner.rs token_receiver.rs", [("assert_contract_running", "lib.rs"), ("change_state", "owner.rs")], observe=["change_state", "all user methods"], level="histories run on two forks, paused and running")
prop("C17", "Frozen tokens can not be traded, added or withdrawn",
 "While a token is on the frozen list no user can deposit it, withdraw or claim it, trade it, or add or remove liquidity of a pool holding it, by any route including instant swaps, zaps and liquidations; only transfers inside the exchange and the owner's fee handling go on. Operations that do not touch it are unaffected, and removing it from the list restores everything.",
 "histories inputs", "all routes, multi-hop paths and tokens",
 "every entry point must refuse; tests try some of them",
 "lib.rs token_receiver.rs", [("assert_no_frozen_tokens", "lib.rs")], observe=["swap", "withdraw", "ft_on_transfer", "add_liquidity", "remove_liquidity"], level="histories run on two forks, frozen and not")
prop("C18", "Unlisted tokens are accepted only from users who registered them",
 "A token that is neither whitelisted, globally or by suffix, nor registered by the user is refused as a deposit, in a zap and, unless the caller confirms with an attached deposit, in a trade from deposits: it is returned in full and nothing changes; listed or registered tokens are never refused for this. Instant swaps, whose result is delivered outside, need no listing. Client-echo instructions are honoured only for listed tokens and senders or secure senders, including listed wildcards; otherwise the transfer is returned in full, as is the lending market's if several tokens would be paid out.",
 "inputs histories configurations", "all lists, suffixes, tokens, senders and routes",
 "combinations of global lists, suffixes and user registrations; tests cover few",
 "account_deposit.rs lib.rs token_receiver.rs client_echo_limit.rs", [("internal_deposit / whitelist", "account_deposit.rs"), ("assert_client_echo_valid", "client_echo_limit.rs")], observe=["ft_on_transfer", "swap", "get_whitelisted_tokens"], level="generated lists and deposits against a list model")
prop("C19", "Trading fees are split exactly as configured",
 "Of every trade's fee the configured protocol part becomes pool shares of the protocol and, if the trade names a registered referrer, the referrer's configured part of that; the rest stays with the liquidity providers. An unknown or unregistered referrer gets nothing and costs the trader nothing, and the trader's output does not depend on the split.",
 "inputs configurations histories", "all fee settings, referral settings, pool kinds and trade sizes",
 "exact shares for every fee setting; tests check one setting",
 "admin_fee.rs simple_pool.rs stable_swap/mod.rs rated_swap/mod.rs degen_swap/mod.rs owner.rs", [("AdminFees", "admin_fee.rs"), ("fee shares in swap", "simple_pool.rs: swap, stable_swap/mod.rs: swap")], observe=["get_pool_shares of the protocol and the referrer"], level="differential: the same trade on forks with and without referral and protocol fee, against an exact big-integer model")
prop("C20", "The amplification moves only along the announced ramp",
 "The amplification of a stable-family pool is at every moment the straight-line value between the start and the announced target and time, reaches the target at that time and stays. Ramps start only within the allowed range, speed and spacing, stopping freezes the present value, and quotes and trades use the present value.",
 "inputs histories schedules", "all ramps, stops and times, including before, at and after the end",
 "time is continuous; tests sample one or two instants",
 "stable_swap/mod.rs stable_swap/math.rs rated_swap/mod.rs degen_swap/mod.rs owner.rs", [("ramp_amplification, stop_ramp_amplification", "stable_swap/mod.rs"), ("compute_amp_factor", "stable_swap/math.rs")], observe=["get_stable_pool", "get_rated_pool", "get_degen_pool"], level="generated ramp histories and times against a model")
prop("C21", "Trades use only fresh and valid rates and prices",
 "A pool with exchange rates or oracle prices trades, and takes or pays out liquidity other than in proportion, only while every rate or price it uses was obtained within its validity period; otherwise the operation fails without effect. A reported rate or price is accepted only from its configured source and if it is as recent and confirmed as configured, is stored exactly scaled, and a failing or malformed report changes nothing.",
 "inputs schedules fault_sequences histories", "all reports, ages, failures, scales and times of use",
 "freshness is about every instant and every malformed answer; tests use fresh well-formed ones",
 "rated_swap/rate.rs rated_swap/stnear_rate.rs rated_swap/linear_rate.rs rated_swap/sfrax_rate.rs degen_swap/degen.rs degen_swap/price_oracle.rs degen_swap/pyth_oracle.rs oracle.rs lib.rs", [("is_price_valid / are_actual", "rated_swap/rate.rs, degen_swap/degen.rs"), ("callbacks", "lib.rs: update_token_rate_callback, update_degen_token_price_callback")], observe=["list_rated_tokens", "list_degen_tokens", "swap"], level="generated oracle answers and clock against a model of validity and scaling")
prop("C22", "A pool with a value limit never grows beyond it by adding liquidity",
 "After any successful addition of liquidity to a degen pool with a value limit, by any route, the pool's total value at current prices is at most the limit; an addition that would exceed it fails without effect. Pools without a limit are not restricted, trades and removals are never blocked by it, and it changes only as configured by the owner or guardians.",
 "inputs histories configurations", "all limits, prices and additions, directly and in one-step zaps",
 "threshold behaviour over all amounts and routes; tests use one limit",
 "pool_limit_info.rs pool.rs lib.rs token_receiver.rs degen_swap/mod.rs", [("assert_tvl_not_exceed_limit", "pool.rs")], observe=["add_stable_liquidity", "ft_on_transfer", "get_degen_pool_tvl"], level="generated limits around the resulting value against an exact value model")
prop("C23", "The time-weighted record of a share's contents is exact",
 "For a recorded pool the time-weighted average of tokens per share over any recorded window equals the time integral of the pool's true contents per share, whatever operations happened in between. Records are bounded in number and spacing, and pools not registered carry none.",
 "histories schedules", "all histories of liquidity operations and trades with arbitrary time steps",
 "an integral over histories; tests read one record",
 "unit_lpt_cumulative_infos.rs lib.rs shadow_actions.rs", [("update before each change", "lib.rs: internal_update_unit_lpt_cumulative_info"), ("records", "unit_lpt_cumulative_infos.rs")], observe=["get_unit_lpt_assets", "get_pool_twap_info"], level="histories with generated time steps against an integral computed from observed states")
prop("C24", "Swap volumes count every trade exactly once",
 "The recorded cumulative input and output volume per token of a pool grows by exactly the amounts of each trade through it, by whatever route, and by nothing else; it never decreases and a failed trade leaves it unchanged.",
 "histories inputs", "all trades and routes",
 "counters over histories; tests read them after one trade",
 "simple_pool.rs stable_swap/mod.rs rated_swap/mod.rs degen_swap/mod.rs swap_volume.rs", [("volumes", "simple_pool.rs: swap, swap_volume.rs")], observe=["get_pool_volumes", "get_pool_volumes_by_ids", "get_return"], level="histories against a volume ledger")
prop("C25", "An upgrade preserves all state",
 "Upgrading or migrating the contract keeps every account, deposit, share, lock, pool, list and setting as it was, and everything works on as before; only the owner can trigger it. Accounts in an older stored form read and behave like current ones.",
 "histories configurations", "all reachable states",
 "tests upgrade an empty or nearly empty contract",
 "owner.rs legacy.rs account_deposit.rs lib.rs", [("migrate", "owner.rs"), ("VersionedAccount", "account_deposit.rs")], observe=["every view before and after"], level="histories with an upgrade inserted, compared with the same history without it")
prop("C26", "Nobody's holdings are reduced without their consent",
 "An account's deposits, shares, lost-and-found claims, storage credit and locks are reduced only by its own operations, the settlement of its own earlier operations, or a liquidation by the lending market of what it locked there. Operations of other users, the owner or peers, in any order and with any failures, never reduce them.",
 "histories schedules fault_sequences", "all histories of all actors and all receipt orders",
 "a universal statement over all pairs of actors and operations; tests do not look at bystanders",
 "lib.rs account_deposit.rs multi_fungible_token.rs shadow_actions.rs owner.rs", [("predecessor-keyed accounts", "account_deposit.rs"), ("virtual accounts", "lib.rs, token_receiver.rs")], observe=["get_deposits", "get_pool_shares", "list_lostfound_tokens", "storage_balance_of", "get_shadow_records"], level="stateful histories, every bystander's holdings compared after every receipt")
prop("C27", "Leaving never destroys value",
 "An account can be closed only without token registrations and locks, a token registration removed only at zero deposit, and a share registration only at zero shares; shares survive whatever else is removed. A refused removal changes nothing, a successful one returns the remaining storage credit, and a user can always withdraw everything and leave.",
 "histories inputs schedules", "all states of the account and all removal routes",
 "tests try removal in one or two states",
 "storage_impl.rs account_deposit.rs multi_fungible_token.rs donation.rs", [("storage_unregister, unregister_tokens, mft_unregister", "storage_impl.rs, account_deposit.rs, multi_fungible_token.rs")], observe=["storage_unregister", "unregister_tokens", "mft_unregister", "withdraw"], level="histories with removal attempts, and an exit of every user at the end")
prop("C28", "Invalid configurations are never accepted",
 "Pools are created only with distinct tokens, one admissible decimals value per token, fees below one hundred percent and an amplification in range, with a new id, no effect on existing pools and the storage paid for. Fee, referral, rate, oracle, limit, list and record settings are accepted exactly within their documented bounds and then read back exactly as set, and a rejected setting leaves every setting as it was.",
 "inputs configurations", "all argument values, especially at and around the bounds",
 "boundaries of many parameters; tests check some from one side",
 "lib.rs owner.rs simple_pool.rs stable_swap/mod.rs rated_swap/mod.rs degen_swap/mod.rs", [("constructors' asserts", "stable_swap/mod.rs: new, simple_pool.rs: new"), ("setters", "owner.rs")], observe=["add_*_pool", "modify_total_fee", "modify_admin_fee", "*_referral", "metadata"], level="generated configuration calls around every bound against a validity predicate")
prop("C29", "All routes of execution give the same result",
 "The same trade gives the same output, reserves, fee shares and volumes whether sent as a swap, as a list of actions, through a temporary account or as an instant transfer, and a multi-hop trade equals its hops made one after another. Only the way of funding and delivery differs.",
 "inputs histories", "all trades, states and splits into hops",
 "relations between entry points over all inputs; tests exercise each entry alone",
 "lib.rs token_receiver.rs action.rs", [("internal_execute_actions", "lib.rs")], observe=["swap", "execute_actions", "execute_actions_in_va", "ft_on_transfer"], level="metamorphic: one trade by every route on forks of one state")
prop("C40", "Farming rewards are conserved",
 "For every reward token of the farming contract, what was deposited as rewards equals what is still undistributed, distributed but unclaimed, credited to farmers or the beneficiary, withdrawn or under way, apart from rounding, and never less than what is owed. The contract's real balance always covers it, across claims, joins, exits, ended and cleared farms and failed withdrawals.",
 "histories schedules fault_sequences", "all histories of farms, seeds, claims and times with failing transfers",
 "sums over all farmers and farms after any history; tests follow one or two farmers",
 "simple_farm.rs farmer.rs actions_of_reward.rs actions_of_seed.rs actions_of_farm.rs", [("distribute / claim", "simple_farm.rs"), ("withdraw_reward and its callback", "actions_of_reward.rs")], observe=["list_farms_by_seed", "list_rewards", "get_reward", "token balances"], level="stateful histories with scheduled receipts and failing transfers against a reward ledger")
prop("C41", "Rewards are shared in proportion to stake and time",
 "What a farmer can claim equals, up to rounding, the sum over completed distribution rounds of each round's reward times the farmer's share of the staked total in that round. Rewards never accrue for time before staking or after withdrawal, are independent of how often anyone claims, and the reported unclaimed amount is what a claim pays.",
 "histories inputs", "all sequences of stakes, withdrawals, claims and times",
 "fairness over all interleavings of several farmers; tests use fixed schedules",
 "simple_farm.rs actions_of_reward.rs actions_of_seed.rs farm_seed.rs", [("reward per seed accumulator", "simple_farm.rs: distribute, claim_user_reward")], observe=["get_unclaimed_reward", "claim_reward_by_farm", "claim_reward_by_seed", "get_reward"], level="stateful histories against an independent exact model of the distribution")
prop("C42", "Staked seeds are conserved and return exactly once",
 "The total stake recorded for a seed equals the sum over farmers plus what is under way, and is covered by the farming contract's real balance of that token. A withdrawn stake arrives at the farmer once, or is restored to the farmer if the transfer fails, whatever else happens in between.",
 "histories schedules fault_sequences", "all histories of stakes and withdrawals with failing transfers and interleavings",
 "the restore path runs only on failing transfers interleaved with other operations",
 "actions_of_seed.rs farm_seed.rs farmer.rs token_receiver.rs", [("withdraw_seed and its callbacks", "actions_of_seed.rs")], observe=["list_seeds", "list_user_seeds", "token and share balances"], level="stateful histories with scheduled receipts and failing transfers against a stake ledger")
prop("C43", "A farmer can always claim, exit and leave",
 "At any time while the contract runs a farmer can withdraw any part of the stake and all credited rewards and receives them, no matter what other farmers, expired farms or clean-ups do. Claims and stake changes never fail because of arithmetic or stale records, and the account can be closed once it holds nothing and not before.",
 "histories inputs", "all states reachable by any farmers, farms and clean-ups",
 "a liveness claim in every reachable state; tests check success on a few paths",
 "actions_of_seed.rs actions_of_reward.rs simple_farm.rs storage_impl.rs", [("exit path", "actions_of_seed.rs: withdraw_seed"), ("storage_unregister", "storage_impl.rs")], observe=["withdraw_seed", "withdraw_reward", "storage_unregister"], level="stateful histories after each of which every farmer exits on a fork")
prop("C44", "Farming administration is restricted and pause is effective",
 "Creating farms, changing minimum deposits, cleaning farms, pausing, resuming and changing ownership work only for the owner with the required deposit, and the settlement callbacks only for the contract itself; anyone else is refused without effect. While paused farmers' operations are refused without effect and incoming tokens are returned.",
 "inputs histories", "all methods, callers and deposits in any state",
 "a matrix over methods, callers and states; tests try a few pairs",
 "owner.rs lib.rs actions_of_farm.rs token_receiver.rs", [("assert_owner, assert_contract_running", "owner.rs, lib.rs")], observe=["all change methods"], level="generated caller/method/deposit matrix in generated states against a role table")
prop("C45", "Farms follow their life cycle and pay no more than their terms",
 "A farm distributes nothing before its start or its first reward deposit, exactly its stated reward per completed round counted from its start, never more than was deposited, and ends when it is used up. It accepts only its own reward token and seeds only of at least the minimum, and an ended farm can be cleared only by the rules, with what was not claimed going to the beneficiary.",
 "histories inputs configurations", "all terms, start times, deposits, gaps and clean-ups",
 "time-dependent behaviour over all terms; tests use a single start and interval",
 "simple_farm.rs actions_of_farm.rs token_receiver.rs farm_seed.rs owner.rs", [("status and distribution", "simple_farm.rs: SimpleFarmStatus, try_distribute, move_to_clear")], observe=["get_farm", "list_farms", "force_clean_farm"], level="stateful histories against an exact model of the life cycle")

prop("C46", "Farming upgrades keep the whole state and go on where it was",
 "Upgrading the farming contract from the kept release, or migrating the earlier form of its state, leaves every farm, seed, stake, claimable and credited reward, storage record, owner and running state as it was, and everybody can still exit. Operations after it, and settlements under way during it, end as they would have without it, and only the owner can upgrade, with code that fails to install or to migrate leaving everything as it was.",
 "histories configurations", "all histories before, during and after an upgrade, from each form of state",
 "an upgrade acts on whatever state years of use have left; tests upgrade an empty or tiny contract",
 "owner.rs lib.rs", [("migrate, upgrade", "owner.rs"), ("VersionedContractData", "lib.rs")], observe=["upgrade", "migrate", "all views"], level="stateful histories on the old code, then an upgrade amid scheduled receipts; views and a fork without the upgrade as oracle")
prop("C47", "Farming storage deposits are kept and returned exactly",
 "The farming contract's record of every account's storage deposit changes by exactly what that account or its sponsor paid, less what was refunded; refunds, withdrawals of what is not locked and the balance at unregistering are sent to the account once and in full. Nobody takes up more storage than is paid for by claiming or staking, a whole stake withdrawn frees its records, and the contract always holds the NEAR recorded as storage deposits.",
 "histories", "all histories of registrations, deposits, withdrawals and farming operations",
 "a ledger over all accounts and histories; tests check single calls",
 "storage_impl.rs farmer.rs actions_of_farm.rs", [("storage_deposit, storage_withdraw, storage_unregister", "storage_impl.rs"), ("assert_storage_usage", "farmer.rs")], observe=["storage_balance_of", "storage_balance_bounds", "NEAR balances", "outgoing transfers"], level="stateful histories with scheduled receipts against a storage ledger")

prop("C30", "Views report the state truthfully and consistently",
 "Paged, batched and combined views of pools, accounts, deposits, shares, lists, settings, volumes, limits and time-weighted records return exactly what the single views return, and every page covers its range once and completely. Share prices, pool values, validity flags and storage states equal what follows from the contents by the documented formulas. Reading changes nothing.",
 "histories inputs", "all views, ranges, pages and account arguments in every reachable state",
 "a relation between all views over arbitrary contents and ranges; tests look at single views of small states",
 "views.rs lib.rs degen_swap/mod.rs rated_swap/mod.rs owner.rs", [("paging and combined views", "views.rs"), ("validity flags", "degen_swap/mod.rs, rated_swap/mod.rs")], observe=["all views of the exchange"], level="generated states and ranges; each view recomputed from single views and from the state's contents")
prop("C48", "Farming views report the state truthfully and consistently",
 "Paged and combined views of farms, ended farms, seeds, rewards, stakes and storage return exactly what the single views return, and every page covers its range once and completely. A farm is listed under its seed and as running or ended exactly while it is, counters equal what is listed, and reading changes nothing.",
 "histories inputs", "all views, ranges and pages in every reachable state",
 "a relation between all views over arbitrary contents and ranges; tests look at single views of small states",
 "view.rs lib.rs", [("paging and combined views", "view.rs")], observe=["all views of the farming contract"], level="generated states and ranges; each view recomputed from single views and a list of what was created")
prop("C49", "Staked pool shares stay whole across exchange and farming",
 "Shares of the exchange staked in the farming contract are always backed: the farming contract's shares of a pool equal the farmers' stakes plus what is on the way, whatever fails, pauses or leaves in between and whatever trades, locks and transfers happen meanwhile. No user's shares, staked, own or on the way, are lost or gained by staking and taking back, and everybody can have the whole stake back.",
 "histories schedules fault_sequences", "all histories of both contracts with receipts in any order",
 "the two contracts meet only across receipts; the tests of each use a stand-in for the other or one scripted flow",
 "ref-exchange/src/multi_fungible_token.rs token_receiver.rs actions_of_seed.rs", [("mft_transfer_call, mft_resolve_transfer", "ref-exchange/src/multi_fungible_token.rs"), ("mft_on_transfer, withdraw_seed", "token_receiver.rs, actions_of_seed.rs")], observe=["get_pool_shares", "list_seeds_info", "list_user_seeds"], level="stateful histories on both real contracts with scheduled receipts against a ledger across them")

prop("C50", "A pool's number and how many others exist make no difference",
 "Two exchanges which differ only in when their pools were created, so in the numbers the pools have and in how many came before, behave alike: every operation on a pool succeeds on both or on neither with the same result, and leaves the same pools, shares, locks, deposits, storage and NEAR. This covers every place a pool is named by: the number itself, the share token ':7', the lock 'shadow_ref_v1-7', the farming seed 'ex.near@7', and swap and zap messages.",
 "inputs histories", "all histories over pools of any numbers up to a few hundred",
 "the tests work on pools 0 to 3; a name cut short, a number narrowed or a key that collides shows only with more pools, and only in the operation concerned",
 "ref-exchange/src/multi_fungible_token.rs shadow_actions.rs lib.rs pool.rs ref-farming/src/utils.rs", [("parse_token_id", "ref-exchange/src/multi_fungible_token.rs"), ("pool_id_to_shadow_id, shadow_id_to_pool_id", "ref-exchange/src/shadow_actions.rs"), ("StorageKey", "ref-exchange/src/lib.rs"), ("parse_seed_id", "ref-farming/src/utils.rs")], observe=["get_pool_detail_info", "get_pool_shares", "get_shadow_records", "mft_balance_of"], level="metamorphic: one generated history on two exchanges with renumbered pools, compared after every operation")

prop("C51", "What the exchange logs about amounts is what happened",
 "Every receipt of the exchange that trades, adds or removes liquidity, transfers or donates logs exactly what it did: the amounts logged, summed over the receipt, equal the change of the caller's deposits and shares, of the pools' reserves, and of the protocol's and the referrer's shares, each under the right account, token and pool. Fees logged for a stable, rated or degen trade are the pool's fee on it and the protocol's part of that, and no receipt logs amounts it did not move.",
 "inputs histories", "all histories and all successful receipts",
 "indexers and front ends rebuild volumes and positions from these lines; the tests do not read logs, and a wrong amount needs fees, referral or several pools at once to differ",
 "ref-exchange/src/simple_pool.rs stable_swap/mod.rs rated_swap/mod.rs degen_swap/mod.rs multi_fungible_token.rs event.rs", [("update_pool_and_distribute_fee", "ref-exchange/src/simple_pool.rs"), ("swap, add_liquidity, remove_liquidity_by_tokens", "ref-exchange/src/stable_swap/mod.rs, rated_swap/mod.rs, degen_swap/mod.rs"), ("Event", "ref-exchange/src/event.rs")], observe=["receipt logs", "get_deposits", "get_pool_shares", "get_pools"], level="stateful histories; every receipt's log lines are parsed and compared with the state before and after")

prop("C52", "A farm's number and the order of creation make no difference",
 "Two farming contracts whose farms were created in different orders, so that the farms have different numbers, behave alike: every operation succeeds on both or on neither with the same result, pays the same tokens to the same people, and leaves the same farms, seeds, stakes, unclaimed and withdrawable rewards under the farms' new names. This holds with more than ten farms on a seed, where numbers have two digits, and for farms that ended or were cleaned out.",
 "inputs histories", "all histories over farms created in any order",
 "the tests have one to three farms per seed; a number narrowed, a list kept in the wrong order or state of one farm applied to the next shows only with more",
 "ref-farming/src/farm_seed.rs utils.rs actions_of_farm.rs farmer.rs actions_of_reward.rs", [("gen_farm_id, parse_farm_id", "ref-farming/src/utils.rs"), ("internal_add_farm", "ref-farming/src/actions_of_farm.rs"), ("internal_claim_user_reward_by_seed_id", "ref-farming/src/actions_of_reward.rs")], observe=["get_farm", "list_user_seeds", "get_unclaimed_reward", "list_rewards"], level="metamorphic: one generated history on two farming contracts with renumbered farms, compared after every operation")

BUILT = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27 C28 C29 C30 C40 C41 C42 C43 C44 C45 C46 C47 C48 C49 C50 C51 C52".split()
for p in P:
    if p["id"] not in BUILT:
        p["_na"] = "the check is not built yet"
