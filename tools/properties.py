#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/properties.py)."""
import json, os

S = "programs/openbook-v2/src/"
OB = S + "state/orderbook/"
IX = S + "instructions/"
AC = S + "accounts_ix/"
C = "lib/client/src/"
P = []

def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over.split(), "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "observe_at": list(observe), "hook_needed": hook,
        },
    })

FEW = ("The stable tests are unit tests of the tree, the heap and single matching calls; the program tests (not part of the stable "
       "suite) run a handful of fixed scripts with one fee setting each. ")

prop("C01", "Vault balances always equal what the market owes",
     "After every instruction, each market vault holds exactly the sum of what all participants own on that token (free balances, funds backing resting orders, locked maker fees, unclaimed referrer rebates, uncollected market fees), corrected for trades whose maker side has not been applied yet. No sequence of instructions makes the market owe more than it holds, or strands tokens nobody owns. The totals recorded by the market equal the vault balances.",
     "histories inputs configurations",
     "all sequences of market instructions by several traders (place, take, cancel, edit, batch, deposit, settle, sweep, crank, prune, expiry), all fee settings (zero, maker fee, maker rebate)",
     FEW + "None of them states the balance equation, and rounding, partial fills, self trades and pending events interact only over multi-step histories.",
     [S + "state/market.rs", S + "state/open_orders_account.rs", OB + "book.rs", IX + "place_order.rs", IX + "place_take_order.rs", IX + "settle_funds.rs", IX + "sweep_fees.rs"],
     [("deposit totals", S + "state/market.rs"), ("maker/taker execution", S + "state/open_orders_account.rs")],
     [("base/quote deposit totals", "native tokens the market believes it holds", S + "state/market.rs"), ("position", "free and locked amounts of a trader", S + "state/open_orders_account.rs")],
     ["token vault balances", "market account", "open orders accounts", "event heap"])

prop("C02", "Everyone can always get everything out and the market can be closed",
     "From every reachable market state the ordinary exits succeed: events can be processed, orders cancelled or pruned, balances settled, fees swept, accounts closed, and an expired market closed. When all of that has been done the vaults are empty and every token has ended with a participant, a referrer or the fee collector.",
     "histories configurations",
     "every reachable state of a bounded multi-trader market, followed by a complete wind-down",
     FEW + "Only one script closes a market, from an almost empty state.",
     [IX + "close_market.rs", IX + "prune_orders.rs", IX + "settle_funds.rs", IX + "settle_funds_expired.rs", IX + "consume_events.rs", IX + "sweep_fees.rs", IX + "close_open_orders_account.rs"],
     [("emptiness requirements on closing", IX + "close_market.rs"), ("rounding remainder returned on settlement", IX + "settle_funds.rs")],
     observe=["token vault balances", "instruction results"])

prop("C03", "Nobody's funds move except by their own action or on their orders' terms",
     "An instruction changes the balances, orders or wallet of a participant who did not sign it only by filling, expiring or evicting that participant's resting orders, or by delivering such an outcome. In each of these cases the value of that participant's position never falls below what the order's own price and the configured maker fee allow.",
     "histories inputs configurations",
     "all instruction sequences of a bounded alphabet; at every step all non-signing participants",
     FEW + "They look at the acting account, not at bystanders.",
     [OB + "book.rs", S + "state/open_orders_account.rs", IX + "place_order.rs", IX + "consume_events.rs", IX + "prune_orders.rs"],
     [("fill and out events carry owner and price", OB + "heap.rs"), ("maker execution", S + "state/open_orders_account.rs")],
     observe=["open orders accounts", "wallets"])

prop("C04", "Placing locks exactly what the order can cost and cancelling returns it",
     "Placing an order moves from the trader's wallet exactly the amount by which its taken and posted parts, including fees, exceed the trader's free balance. A bid locks posted size times its price (the peg limit for pegged bids) plus the maker fee, an ask locks its base size. Cancelling, expiry or eviction of an untouched order returns exactly the locked amount to the free balance.",
     "histories inputs configurations",
     "all order parameters of a bounded grid, all starting free balances below, at and above the need, all fee settings",
     FEW + "Few combinations of free balance, partial fill and fee sign are exercised.",
     [IX + "place_order.rs", OB + "book.rs", S + "state/open_orders_account.rs", IX + "cancel_order.rs"],
     [("deposit amount computed from free balance", IX + "place_order.rs"), ("cancel releases locked funds", S + "state/open_orders_account.rs")],
     observe=["wallets", "open orders accounts"])

prop("C05", "Settlement pays exactly the free balances, once",
     "Settling pays the trader exactly the free base and quote balances, pays exactly the accrued rebates to the named referrer or, without one, books them as market fees, and leaves these balances at zero. Settling again pays nothing. The administrator's settlement of an expired market pays only to the trader's own token accounts.",
     "histories inputs configurations",
     "settlement in every reachable state, with and without referrer, by owner, delegate and administrator",
     FEW + "Settlement is called only at the end of scripts, mostly without maker fees left locked.",
     [IX + "settle_funds.rs", IX + "settle_funds_expired.rs", AC + "settle_funds.rs", AC + "settle_funds_expired.rs"],
     [("settlement", IX + "settle_funds.rs")], observe=["wallets", "referrer account", "open orders account"])

prop("C06", "Fees are exactly the configured rates and all of them are collected",
     "A taker trading through an account pays the taker fee rate on the traded quote amount rounded up, a maker pays the maker fee or receives the maker rebate rounded down, and a taker without an account pays only what the makers' rebates cost. Everything paid by traders beyond the trade value ends as maker rebate, referrer rebate or collectable market fee, with nothing left over. Sweeping pays out exactly the collectable market fees.",
     "histories inputs configurations",
     "all fee settings of a grid (zero, both positive, maker rebate below and equal to the taker fee), all trade sizes of a bounded grid, partial and multi-maker fills",
     FEW + "Rounding is only seen for a few round numbers.",
     [S + "state/market.rs", OB + "book.rs", S + "state/open_orders_account.rs", IX + "place_take_order.rs", IX + "sweep_fees.rs", IX + "settle_funds.rs"],
     [("fee rounding", S + "state/market.rs"), ("referrer amount", OB + "book.rs")],
     [("fees available / accrued / to referrers", "fee ledger", S + "state/market.rs")],
     observe=["market account", "open orders accounts", "vaults"])

prop("C07", "Orders are matched in strict price-time priority",
     "An incoming order trades against the best-priced valid resting orders first and, at the same price, in the order in which they were placed, regardless of whether they are fixed-price or pegged. Every trade happens at the resting order's price. A worse-ranked order is never touched while a better-ranked valid one still has size.",
     "histories inputs",
     "all books of a bounded number of fixed and pegged orders over a price grid in every placement order, all incoming orders",
     FEW + "Books with ties between fixed and pegged orders are not enumerated.",
     [OB + "bookside_iterator.rs", OB + "book.rs", OB + "nodes.rs", OB + "ordertree_iterator.rs"],
     [("merged iteration of fixed and pegged orders", OB + "bookside_iterator.rs"), ("key with price and sequence number", OB + "nodes.rs")],
     observe=["fills in events and logs", "book sides"])

prop("C08", "A taker never exceeds their limits",
     "No order trades at a price worse than its limit, for more base than its maximum base amount, or for more quote including taker fees than its maximum quote amount. Within these limits, the match limit and the available valid orders, it takes as much as possible. The amounts debited and credited to the taker are exactly the traded amounts and the fee due.",
     "histories inputs configurations",
     "all incoming orders over a grid of price, base, quote and match limits against every bounded book, all fee settings",
     FEW + "Quote limits with fees are checked for a few values only.",
     [OB + "book.rs", S + "state/market.rs", IX + "place_take_order.rs", IX + "place_order.rs"],
     [("remaining base/quote", OB + "book.rs"), ("fee-adjusted quote budget", S + "state/market.rs")],
     observe=["wallets", "fills", "open orders account"])

prop("C09", "Each order type does what its name says",
     "Immediate-or-cancel and market orders never rest; fill-or-kill fills completely or fails without effect; post-only never trades and is not posted if it would trade; post-only-slide never trades and is posted at most one tick away from the best opposing price; a limit order trades and rests with its remainder. An order that stopped matching early because of its match limit or because its budget no longer buys a lot is not posted. The returned order id is present exactly if the order rests.",
     "histories inputs configurations",
     "every order type, side, price, size, budget and match limit of a grid against every bounded book",
     FEW + "Types are exercised one by one against a single resting order.",
     [OB + "order.rs", OB + "book.rs", OB + "order_type.rs", IX + "place_order.rs", IX + "place_take_order.rs"],
     [("post target", OB + "order.rs"), ("matching loop", OB + "book.rs")],
     observe=["book sides", "return data", "fills"])

prop("C10", "A posted order never crosses the book",
     "When an order is placed on the book, its price is strictly worse than that of every valid opposing order still resting at that moment. With fixed-price orders only, the best valid bid is therefore always below the best valid ask.",
     "histories inputs configurations",
     "every placement in every reachable bounded book, all order types, budgets and fee settings",
     FEW + "Crossing needs combinations of budgets, fee reserves and limits that no test builds.",
     [OB + "book.rs", OB + "order.rs"],
     [("no posting when matching stops early", OB + "book.rs"), ("post-only slide price", OB + "order.rs")],
     observe=["book sides"])

prop("C11", "Self trades behave as chosen and never cost fees",
     "When an order meets a resting order of the same account, it is either reduced against it without any fee to or from anyone, or the resting order is cancelled and its funds freed, or the whole instruction fails, as the incoming order chose. A self trade leaves the account's total funds unchanged. Orders of other accounts are unaffected by the choice.",
     "histories inputs configurations",
     "all self-trade modes, sides, sizes, fixed and pegged makers mixed with foreign makers, all fee settings",
     FEW + "Only ask-side makers are tested for the decrement mode.",
     [OB + "book.rs", S + "state/open_orders_account.rs"],
     [("self trade behaviour", OB + "book.rs"), ("maker fees skipped", S + "state/open_orders_account.rs")],
     observe=["open orders account", "market fees"])

prop("C12", "Expired orders never trade and release their funds",
     "An order with an expiry never trades at or after its expiry time and remains fully valid before it. An order whose expiry already passed is not placed. When an expired order is removed, its owner gets back exactly the locked funds.",
     "histories inputs schedules",
     "all interleavings of placements with expiries, clock steps to just before, at and after expiry, and takers, with more expired orders than one instruction drops",
     FEW + "Time is advanced past expiry once; boundary instants and more than a few expired orders are not covered.",
     [OB + "book.rs", OB + "nodes.rs", OB + "ordertree.rs", OB + "bookside.rs", OB + "order.rs"],
     [("expiry check", OB + "nodes.rs"), ("earliest expiry cache", OB + "ordertree.rs")],
     observe=["fills", "book sides", "open orders accounts"])

prop("C13", "Pegged orders trade only at oracle price plus offset, within their limit",
     "A resting pegged order trades exactly at the current oracle price plus its offset, in lots, and never beyond its peg limit; when the price is outside the representable range it is passed over and stays on the book. A pegged order beyond its limit is removed with its funds returned, and is never posted in that state. Pegged orders neither trade nor get removed because of price while no valid oracle price is available.",
     "histories inputs configurations schedules",
     "books of several pegged and fixed orders, all oracle moves over a grid including out-of-range and unavailable prices, then all takers",
     FEW + "One pegged order at a time, two oracle prices.",
     [OB + "bookside_iterator.rs", OB + "book.rs", OB + "order.rs", IX + "place_order.rs"],
     [("pegged price and state", OB + "bookside_iterator.rs"), ("peg limit check when posting", OB + "book.rs")],
     observe=["fills", "book sides", "open orders accounts"])

prop("C14", "Only fresh, confident oracle prices are used",
     "An oracle price is used only if it is not older than the configured maximum staleness and its deviation is within the configured confidence filter, for each configured oracle; with two oracles the price is the quotient of both and the combined deviation counts. Otherwise placing pegged orders fails and fixed-price trading continues without pegged liquidity. The lot price is the oracle price scaled by decimals and lot sizes.",
     "inputs configurations schedules",
     "all combinations of one or two oracles, prices, deviations at, below and above the filter, update slots at, before and after the staleness bound, decimals and lot sizes of a grid",
     FEW + "The oracle unit tests parse recorded accounts; acceptance boundaries are not covered.",
     [S + "state/oracle.rs", S + "state/market.rs", IX + "place_order.rs"],
     [("staleness and confidence checks", S + "state/oracle.rs"), ("price in lots", S + "state/market.rs")],
     observe=["instruction results", "fills"])

prop("C15", "Work per order is bounded by the caller's limit",
     "One incoming order produces at most as many fills as its match limit, removes at most a fixed small number of expired orders, and applies at most a fixed number of fills directly to passed-in maker accounts; everything else is queued. Cancel-all and prune remove at most the requested number of orders. Event processing handles at most the requested and at most a fixed number of events.",
     "histories inputs",
     "all limits from zero past the number of available orders, books with more expired orders, makers and events than each bound",
     FEW + "No test has more orders than the limits.",
     [OB + "book.rs", IX + "consume_events.rs", IX + "cancel_all_orders.rs", IX + "prune_orders.rs"],
     [("match limit, expired drop limit, direct fill limit", OB + "book.rs"), ("event limit", IX + "consume_events.rs")],
     observe=["fills", "events", "book sides"])

prop("C16", "A full book only ever evicts the worst order for a better one",
     "When a side of the book is full, a new order is placed only if it is better than the worst resting order of that side, which is then removed with all its locked funds returned; otherwise placing fails without effect. An expired order is dropped in preference. No other order is affected.",
     "histories inputs configurations",
     "near-full and full books of fixed and pegged orders in several distributions, every new order relative to the worst, at the worst, better, with and without oracle and expired orders",
     FEW + "The full book is only tested on the bare tree.",
     [OB + "book.rs", OB + "bookside.rs", OB + "ordertree.rs"],
     [("remove worst", OB + "bookside.rs")], observe=["book sides", "open orders accounts", "events"])

prop("C17", "Order ids are unique and always name the right order",
     "Every order ever placed in a market gets an id different from all earlier ones, even for equal prices. The id returned by placing, recorded in the owner's account and in the book are the same, and acting on an id or client id affects only the order of that owner with that id.",
     "histories inputs",
     "all bounded placement histories over both sides, fixed and pegged, with cancels, fills and re-placements in between",
     FEW + "Ids are never compared across a history.",
     [S + "state/market.rs", OB + "nodes.rs", IX + "cancel_order.rs", IX + "cancel_order_by_client_order_id.rs"],
     [("order id from sequence number", S + "state/market.rs")], observe=["return data", "book sides", "open orders account"])

prop("C18", "A trade's effect on the maker does not depend on how it is delivered",
     "Every fill and every removal reaches its owner exactly once, whether applied directly or queued and processed later, in any order, batch size or mixture allowed to the caller. Once all events are processed, all participants' balances and orders are the same for every such delivery. Events whose owner account was not supplied stay queued, unchanged and in order.",
     "schedules histories",
     "every partition of makers into passed-in and queued, every order and subset of later processing, with further orders, cancels and settlements in between",
     FEW + "Scripts pass either all or no makers and crank once.",
     [OB + "book.rs", IX + "consume_events.rs", OB + "heap.rs", S + "state/open_orders_account.rs"],
     [("direct or queued processing", OB + "book.rs"), ("event consumption", IX + "consume_events.rs")],
     observe=["event heap", "open orders accounts", "market account"])

prop("C19", "The event queue is a bounded first-in first-out queue with free removal",
     "The queue accepts events until its capacity is reached and then rejects the instruction that would add one; it never overwrites or loses an event. Without an explicit choice events are processed oldest first; chosen queued positions can be processed first, and unused positions are ignored. The reported number of queued events is exact.",
     "histories inputs",
     "all operation sequences on the queue from empty, partially filled, fragmented and nearly full states, including the physical free list",
     "Unit tests run a few fixed sequences on the queue; fragmentation orders and fullness through instructions are not covered.",
     [OB + "heap.rs", IX + "consume_events.rs"],
     [("linked list in slot array", OB + "heap.rs")],
     [("used/free list heads", "positions of queued and free slots", OB + "heap.rs")],
     observe=["event heap account", "consume results"])

prop("C20", "The price and expiry indexed order book behaves as an ordered map",
     "Each book side behaves as a map from order id to order with iteration from best to worst, for any sequence of insertions and removals in any order and up to its capacity. Removal by id, removal of the worst, of the best and of an expired order remove exactly that order; size and emptiness are exact; all space is reusable. The cached earliest expiry of every part is exact, so an expired order is found whenever one exists.",
     "histories inputs",
     "all insertion/removal sequences over small key universes chosen to hit every prefix relation, with expiries, from empty, fragmented and full states, including the physical layout",
     "The tree unit tests use random sequences checked for invariants but not all orders of operations.",
     [OB + "ordertree.rs", OB + "nodes.rs", OB + "bookside.rs", OB + "ordertree_iterator.rs"],
     [("crit-bit tree", OB + "ordertree.rs")],
     [("nodes", "inner and leaf nodes with free list", OB + "ordertree.rs")],
     observe=["book side account bytes", "public book side functions"])

prop("C21", "Cancelling removes exactly the named orders",
     "Cancelling by id or client id removes that order of the signer's account and nothing else, cancelling all (or one side) removes exactly all resting orders of that account (on that side) up to the limit. The removed order's remaining size is exactly what is returned to the owner. An order that is unknown, already filled or belongs to someone else is never removed.",
     "histories inputs",
     "every cancel form in every reachable bounded state, including partially and completely filled orders with unprocessed events, several orders sharing a client id",
     FEW + "Cancels are tested on untouched orders.",
     [IX + "cancel_order.rs", IX + "cancel_order_by_client_order_id.rs", IX + "cancel_all_orders.rs", OB + "book.rs"],
     [("cancel through owner slot list", OB + "book.rs")], observe=["book sides", "open orders accounts", "return data"])

prop("C22", "Editing replaces an order without ever oversizing it",
     "Editing removes the named order and places the new one with its size reduced by what was filled of the old one relative to the expected size; if the old order is gone or more than expected remains, or nothing would be left, no new order is placed. Total size placed never exceeds the requested size. Everything else behaves as the separate cancel and place would.",
     "histories inputs",
     "every expected size, new size, side, price and order kind in states where the old order is untouched, partially filled, filled, missing or ambiguous",
     FEW + "One edit of a half filled order.",
     [IX + "edit_order.rs", S + "lib.rs"],
     [("edit", IX + "edit_order.rs")], observe=["book sides", "return data", "open orders account"])

prop("C23", "Batch placement equals placing the orders one by one",
     "Placing several orders in one instruction has the same effect on book, balances and events as placing those that the account can pay for one after another, and never moves more tokens than needed. The variant that cancels first removes all previous orders of the account before. The returned list names exactly the orders that rest.",
     "histories inputs configurations",
     "all batches of up to a few bids and asks over a price/size grid, with funds enough for all, some and none, against bounded books",
     FEW + "One script with ample funds.",
     [IX + "cancel_all_and_place_orders.rs"],
     [("batch placement", IX + "cancel_all_and_place_orders.rs")], observe=["book sides", "wallets", "return data"])

prop("C24", "Book, account order lists and queued events always agree",
     "Every resting order is listed exactly once in its owner's account, and every listed order either rests or has exactly one queued event that will remove it. The account's locked sizes equal the sum of its resting orders plus its queued, unapplied fills and removals. An account never holds more than its fixed number of orders.",
     "histories inputs configurations",
     "every reachable state of bounded multi-trader markets including nearly full accounts",
     FEW + "Agreement is checked nowhere.",
     [S + "state/open_orders_account.rs", OB + "book.rs", OB + "heap.rs"],
     [("slot list in the owner's account", S + "state/open_orders_account.rs")],
     observe=["book sides", "open orders accounts", "event heap"])

prop("C25", "Every privileged action needs the right signature",
     "Orders of an account are placed, changed, cancelled and settled only with the signature of its owner or current delegate, and it is closed and delegated only by its owner. Fees are swept, markets expired, closed and pruned only with the signature of the administrator configured for that, and if none is configured not at all. Tokens leave a wallet only with its owner's signature.",
     "inputs configurations histories",
     "every instruction, every signer role removed or replaced by every other party, with and without delegates and administrators",
     FEW + "A few negative cases exist for some instructions.",
     [AC + "place_order.rs", AC + "cancel_order.rs", AC + "settle_funds.rs", AC + "sweep_fees.rs", AC + "close_market.rs", AC + "prune_orders.rs", AC + "set_delegate.rs", AC + "deposit.rs"],
     [("signer and owner constraints", AC + "place_order.rs"), ("owner or delegate", S + "state/open_orders_account.rs")],
     observe=["instruction results"])

prop("C26", "A delegate can trade but never take the money",
     "A delegate can place, change and cancel orders and settle only to token accounts of the account owner; settling elsewhere, closing the account or changing the delegate fails. Only the owner sets or clears the delegate, and a cleared or replaced delegate has no rights from then on.",
     "histories inputs",
     "all sequences of delegate changes and delegate actions, all destination accounts",
     FEW + "One delegate script.",
     [S + "state/open_orders_account.rs", AC + "settle_funds.rs", IX + "set_delegate.rs", AC + "set_delegate.rs"],
     [("destination check", S + "state/open_orders_account.rs")], observe=["instruction results", "wallets"])

prop("C27", "Foreign accounts cannot be substituted",
     "An instruction on a market succeeds only with that market's own books, event queue, vaults, authority, oracles and open orders accounts; replacing any of them by an account of another market, another trader, another kind, owner program or token mint makes it fail or has no effect beyond the replaced account's own rights. In particular tokens never go to or come from an account other than the ones the market or signer owns.",
     "inputs configurations",
     "every account position of every instruction replaced by every other account of a world with two markets and several traders",
     FEW + "Substitution is not tested.",
     [AC + "place_order.rs", AC + "place_take_order.rs", AC + "settle_funds.rs", AC + "consume_events.rs", AC + "deposit.rs", AC + "sweep_fees.rs", AC + "cancel_order.rs", S + "accounts_zerocopy.rs"],
     [("account constraints", AC + "place_order.rs")], observe=["instruction results", "all account bytes"])

prop("C28", "Permissioned markets enforce their gatekeepers",
     "If a market has an order administrator, no order is placed or taken without that administrator's signature; if it has an event administrator, events are processed only with that one's signature. Cancelling, settling and withdrawing never need them. Markets without administrators never require them.",
     "inputs configurations histories",
     "all four combinations of administrators, every instruction with right, wrong, unsigned and missing administrator",
     FEW + "One permissioned script.",
     [IX + "place_order.rs", IX + "place_take_order.rs", AC + "consume_events.rs", AC + "place_order.rs"],
     [("administrator checks", AC + "place_order.rs")], observe=["instruction results"])

prop("C29", "Expired markets stop trading and let everyone out; only empty ones close",
     "Once its expiry time has passed, no order can be placed or taken and no deposit made in a market, while cancelling, event processing, settling and sweeping keep working. Only then, and only by the closing administrator, can orders be pruned, funds settled on a trader's behalf, and the market closed; closing needs empty books, an empty queue and no owed tokens. Setting a market expired takes effect immediately and is final.",
     "histories inputs schedules configurations",
     "every instruction just before, at and after expiry in every reachable bounded state, with timed and administrator-set expiry",
     FEW + "One closing script, one expired placement.",
     [S + "state/market.rs", IX + "close_market.rs", IX + "prune_orders.rs", IX + "set_market_expired.rs", IX + "settle_funds_expired.rs", AC + "close_market.rs", AC + "place_order.rs"],
     [("expiry checks", S + "state/market.rs"), ("emptiness checks", IX + "close_market.rs")], observe=["instruction results", "market account"])

prop("C30", "Trading accounts are created, found and closed consistently",
     "Every account a user creates gets a fresh number and address, is listed exactly once in that user's index, is bound to one market and starts empty. It can be closed only by its owner and only when it holds and owes nothing, and then disappears from the index while its number is never reused as long as the index exists. The index can be closed only when it lists nothing.",
     "histories inputs",
     "all sequences of creating and closing accounts and the index for several users and markets, with accounts in every emptiness state",
     FEW + "Accounts are created once per script and closed once.",
     [IX + "create_open_orders_account.rs", IX + "create_open_orders_indexer.rs", IX + "close_open_orders_account.rs", IX + "close_open_orders_indexer.rs", S + "state/open_orders_indexer.rs", S + "state/open_orders_account.rs"],
     [("index and counter", S + "state/open_orders_indexer.rs")], observe=["indexer account", "open orders accounts"])

prop("C31", "Markets are created only with safe parameters and exactly as requested",
     "Creating a market fails for non-positive lot sizes, fee rates out of range, a maker rebate above the taker fee, an expiry in the past, an inconsistent or repeated oracle choice or an unreadable oracle. A created market records exactly the requested parameters, starts empty and its parameters never change afterwards.",
     "inputs configurations",
     "the full grid of boundary values of every creation parameter",
     FEW + "Creation is tested with a handful of valid parameters.",
     [IX + "create_market.rs", AC + "create_market.rs", S + "state/market.rs"],
     [("creation checks", IX + "create_market.rs")], observe=["instruction results", "market account"])

prop("C32", "Deposits and refills credit exactly what was paid in",
     "A deposit moves exactly the stated base and quote amounts from the signer's wallet to the vaults and adds them to the named account's free balances; a refill moves only what is missing to reach the stated amounts. Neither affects anyone else, and both fail as a whole if the wallet cannot pay.",
     "histories inputs configurations",
     "all amounts of a grid including zero and more than available, all free balances, for own and foreign accounts",
     FEW + "One deposit script.",
     [IX + "deposit.rs", AC + "deposit.rs", S + "lib.rs"],
     [("deposit", IX + "deposit.rs")], observe=["wallets", "vaults", "open orders account"])

prop("C33", "Leaving work to the queue costs the taker a fixed charge, once",
     "An instruction that makes the event queue longer charges its initiator one fixed lamport amount: at once for takers without an account, counted and paid on the next settlement for accounts. Instructions that leave the queue no longer are never charged. The charge goes to the market account.",
     "histories inputs",
     "all placements and takes with every choice of passed-in makers in every bounded state, then settlements",
     FEW + "One script looks at the charge.",
     [IX + "place_order.rs", IX + "place_take_order.rs", IX + "settle_funds.rs"],
     [("penalty", IX + "place_order.rs")], observe=["lamports", "open orders account"])

prop("C34", "Emitted records describe exactly what happened",
     "Every fill applied to a maker, every taker execution, deposit, settlement, sweep, delegate change and market creation emits exactly one record whose amounts and parties equal the state change and whose fees follow the configured rates, and nothing is recorded that did not happen. Cumulative maker and taker volumes equal the sums of recorded trades.",
     "histories inputs configurations",
     "every successful instruction of every bounded history",
     FEW + "Records are not compared with effects.",
     [S + "logs.rs", OB + "book.rs", S + "state/open_orders_account.rs", IX + "settle_funds.rs", IX + "sweep_fees.rs", IX + "deposit.rs"],
     [("event emission", S + "logs.rs")], observe=["program log data", "account changes"])

prop("C35", "Extreme inputs fail cleanly and never create or lose value",
     "For every numeric argument, including the extremes of its type, an instruction either fails without effect or has its defined effect. Prices, sizes, budgets, offsets, limits, lot sizes and balances near the limits never wrap around, and never give anyone more than they are entitled to.",
     "inputs configurations histories",
     "cross products of boundary values for every argument of every instruction, in markets with extreme lot sizes and prices, followed by matching and settlement",
     FEW + "Extremes are not tested apart from one large order.",
     [OB + "order.rs", OB + "book.rs", OB + "nodes.rs", S + "state/market.rs", S + "lib.rs"],
     [("checked arithmetic and range checks", OB + "book.rs")], observe=["instruction results", "balances"])

prop("C36", "Client quotes equal what the program then does",
     "For the same book, market, oracle price and time, the amounts and fee that the Rust client's swap quote and book simulation report for a taker are exactly what the program then makes the taker pay and receive in a market order for that amount in whole lots. Lack of liquidity is reported exactly when the offered amount (for buyers: net of the taker fee) is not used up, and markets restricted to approved traders are never quoted.",
     "inputs histories configurations",
     "all bounded books with fixed, pegged and expired orders, all swap directions and amounts of a grid, several lot sizes and fee settings",
     "The client's tests are not part of the stable suite and need a network.",
     [C + "book.rs", C + "jup.rs"],
     [("client-side matching", C + "book.rs")], observe=["quote amounts", "program effects"])

prop("C37", "The client names every maker account a taker will hit",
     "The Rust client lists for a taker the owners of the best unexpired opposing orders in the program's matching order, each once and at most three, and its book simulation reports the owner of every order, expired or filled, that the program touches for a given size. A swap sent with exactly the accounts the client supplies succeeds and applies the fills of the listed makers directly instead of queueing them.",
     "inputs histories",
     "all bounded books and taker sides, more owners than the maximum",
     "Not covered by any test.",
     [C + "book.rs"], [("remaining accounts", C + "book.rs")], observe=["account list", "queued events"])

prop("C38", "The client account cache follows the rooted chain and best fork",
     "Whatever the order in which slot and account updates arrive, reading an account from the Rust client's cache returns the newest known write in a rooted slot, in a slot on the known chain leading to the newest slot with a known parent, or in an announced slot newer than that; never one from another fork. All ways of reading agree, the latest of several writes in one slot wins, and announcing a newer root on that chain never changes what reads return.",
     "schedules histories fault_sequences",
     "all arrival orders, duplicates and losses of slot and account updates over small fork trees",
     "No test exists for the cache.",
     [C + "chain_data.rs", C + "chain_data_fetcher.rs"], [("fork resolution", C + "chain_data.rs")], observe=["account reads"])

T = "ts/client/src/"
prop("C39", "The TypeScript client shows markets, books, events and accounts as on chain",
     "Decoded by the TypeScript client, a market's books show exactly the resting fixed-price orders in matching order with their prices, sizes, owners, sequence numbers, expiry status and places in the owner's account; best orders, aggregated levels, queued events, the market's settings and trading accounts equal what is on chain. The same holds after reloading and for accounts kept up to date by watching them. An order is expired from the same second on as for the program.",
     "inputs histories",
     "raw account bytes of every reachable bounded book of fixed-price orders, at times before, at and after expiries, all depths",
     "TypeScript tests need a network and are not part of the stable suite.",
     [T + "accounts/bookSide.ts", T + "accounts/market.ts", T + "accounts/eventHeap.ts", T + "accounts/openOrders.ts", T + "structs/order.ts", T + "utils/watcher.ts"],
     [("book decoding", T + "accounts/bookSide.ts")], observe=["iterated orders", "levels", "events", "account fields"])

prop("C40", "The TypeScript client's balances equal what processing the events yields",
     "The base and quote balance the TypeScript client reports for a trading account, including what it counts for queued events, equals everything the account owns on chain (free, in orders, locked for fees) once all queued events have been processed. Without the queue it equals what the account owns at this moment.",
     "histories",
     "all bounded trading histories with every combination of fills, self trades, cancellations and expiries left in the queue",
     "TypeScript tests need a network and are not part of the stable suite.",
     [T + "accounts/openOrders.ts", T + "accounts/market.ts"], [("balance", T + "accounts/openOrders.ts")], observe=["reported balances"])

prop("C41", "Instructions built by the TypeScript client do what was asked",
     "Every instruction the TypeScript client builds, through its plain functions, its account objects in user units, or either published interface description, is accepted exactly when the requested operation is possible and then has exactly that operation's effect on the requested accounts. The signatures the client announces or collects are exactly those needed: the owner's, or the delegate's when one acts, and those of accounts being created.",
     "inputs histories",
     "every operation with its parameter choices in every state of bounded histories, with and without delegate, administrators, oracles; creation of accounts and markets",
     "TypeScript tests need a network and are not part of the stable suite.",
     [T + "client.ts", T + "openbook_v2.ts", "idl/openbook_v2.json", T + "accounts/openOrders.ts", T + "accounts/market.ts", T + "market.ts"],
     [("instruction builders", T + "client.ts"), ("user units", T + "accounts/openOrders.ts")], observe=["ledger after execution", "signer lists"])

prop("C42", "Searches of the TypeScript client find exactly what exists",
     "The TypeScript client's searches return all and only: the trading accounts of an owner (per market too), the accounts and slots with queued events, each once, the markets with given mints, and all markets ever created. Processing events with what was found has the effect of processing those events.",
     "inputs histories",
     "owners with several accounts and markets, queues with reused slots and repeated owners, every position in long signature lists",
     "TypeScript tests need a network and are not part of the stable suite.",
     [T + "client.ts", T + "market.ts", T + "accounts/openOrders.ts", T + "accounts/openOrdersIndexer.ts"], [("searches", T + "client.ts"), ("market lists", T + "market.ts")], observe=["lists of accounts and slots"])

prop("C43", "The TypeScript client converts lots and user units without loss",
     "Lots of base, quote or price converted to user units equal the exact amount up to number precision, and converting them back gives the same number of lots; amounts between two lots round down. The plain functions and the market object agree, for all decimals and lot sizes whose amounts fit the number type.",
     "inputs",
     "full grid of decimals, lot sizes and lot counts",
     "TypeScript tests need a network and are not part of the stable suite.",
     [T + "market.ts", T + "accounts/market.ts", T + "utils/utils.ts"], [("conversions", T + "market.ts")], observe=["converted amounts"])

prop("C44", "Trading calls of the Rust client do what was asked, through requests that fit",
     "Every trading call of the Rust client (placing, pegged placing, cancelling one or all, depositing, settling, processing events, passing on given instructions) is accepted exactly when the requested operation is possible, has exactly that operation's effect for the caller's accounts, and reports success or failure as it happened. What it sends is signed by exactly the needed keys the client holds, goes to the configured node with the configured commitment, timeout and priority fee, and is sent once. With requests lost the call fails and no other effect appears.",
     "inputs histories fault_sequences",
     "every call with every argument varied in every state of bounded histories, with owners, delegates, strangers, restricted markets, every client setting, and each request lost in turn",
     "No test runs the Rust client against the program.",
     [C + "client.rs", C + "gpa.rs", C + "util.rs"], [("calls", C + "client.rs")], observe=["ledger after execution", "requests sent", "result of the call"])

prop("C45", "The Rust client creates, finds and opens trading accounts and markets",
     "Creating trading accounts, their index or markets through the Rust client yields exactly the requested account, and asking for an account by name returns the existing one of that owner and market or creates it once with the next free number. Lists contain all and only the accounts of that owner, and opening a client on an account loads that account, its market and nothing else. When a request is lost and the call repeated, the outcome is that of one call.",
     "histories fault_sequences",
     "all histories of creating, finding, closing and re-creating accounts and index by one owner on two markets to a bounded depth, each request lost in turn",
     "No test runs the Rust client against the program.",
     [C + "client.rs", C + "gpa.rs"], [("account creation", C + "client.rs")], observe=["accounts on the ledger", "lists", "result of the call"])

prop("C46", "Account readers of the Rust client return what the node holds, asking once",
     "Reading an account or a list through the Rust client returns what the node answered, typed reads succeed exactly for accounts of that kind, and anything unreadable is an error and never a crash. The remembering reader asks for each account or list once, also with several readers at the same time; a failed request is not remembered, and after the memory is cleared later readers get newly requested data.",
     "schedules inputs fault_sequences",
     "all schedules of up to four concurrent readers, clearings, answers and failures to a bounded length; every account and kind",
     "No test exists for the readers; concurrent readers need control of every interleaving.",
     [C + "account_fetcher.rs", C + "gpa.rs", C + "util.rs"], [("cache", C + "account_fetcher.rs")], observe=["values read", "requests sent"])

prop("C47", "Followed chain data passes on every update and refreshes as demanded",
     "Accounts read through the Rust client's followed chain data are those resulting from all account, snapshot and slot messages and refreshed accounts in order of arrival; reading asks the node only when refreshing or for an unknown lookup table. Waiting for accounts to reach a slot succeeds only when the node reported each at that slot or later, pauses between attempts, stops at the first failing request and gives up exactly when the time is over. Malformed updates and accounts of another kind are errors.",
     "histories schedules fault_sequences",
     "all sequences of messages, refreshes and failed answers over three accounts and three slots to a bounded length; all courses of answers when waiting, in simulated time",
     "No test exists; slots, forks, answers and time must be controlled together.",
     [C + "chain_data_fetcher.rs", C + "account_update_stream.rs", C + "chain_data.rs"], [("fetcher", C + "chain_data_fetcher.rs"), ("messages", C + "account_update_stream.rs")], observe=["accounts read", "requests sent", "elapsed simulated time"])

prop("C48", "A transaction is sent once and its outcome reported as the node confirms it",
     "Sending and confirming sends the given transaction exactly once and ends with success, its signature and its slot exactly when the node reports it executed without error at the demanded commitment. A reported execution error is returned as that error, an expired transaction (its own block hash, or the latest one at the time for a durable nonce) as not confirmed, a failing request as failure; otherwise it keeps asking, with pauses. A message offered to a full channel is dropped without error, to a closed one it is an error.",
     "schedules fault_sequences",
     "all courses of answers (sent, refused, lost; every status at every commitment; valid, expired, lost) up to a bounded number of rounds, in simulated time",
     "No test exists; needs a node answering in every possible way.",
     [C + "util.rs"], [("confirmation", C + "util.rs")], observe=["requests sent", "result", "elapsed simulated time"])

prop("C49", "The Rust client converts order sizes to lots with fees included",
     "Base sizes convert to the number of whole lots they contain, quote sizes to the number of whole lots contained in the size plus the fee (the taker's, or the maker's unless it is a rebate), rounded down. Sizes in whole tokens are first scaled by the token's decimals, dollar amounts by six decimals.",
     "inputs",
     "full grid of lot sizes, fees, decimals and sizes",
     "No test exists.",
     [C + "context.rs"], [("conversions", C + "context.rs")], observe=["lots"])

prop("C50", "Snapshots are complete, from finalized state, and survive failing requests",
     "Once the node's finalized slot exceeds the wanted one, and at the wanted interval, the snapshot source delivers every account of the program and every existing listed oracle account exactly once, each with the contents and slot of the answer it came in, whatever the batch size, parallelism and order of answers. When any request fails or an answer is unreadable or older than the wanted slot, no snapshot is delivered and the next one is attempted at the next interval. Batches and simultaneous requests stay within the configured limits.",
     "schedules fault_sequences",
     "all orders of answers and all combinations of failures over batch sizes, parallelism, number of accounts and intervals, in simulated time",
     "No test exists; orders of answers and failures need control of the runtime.",
     [C + "snapshot_source.rs", C + "account_update_stream.rs"], [("snapshots", C + "snapshot_source.rs")], observe=["delivered snapshots", "requests sent"])

prop("C51", "The TypeScript client sends what it was given once and reports how it ended",
     "A transaction sent through the TypeScript client carries exactly the given instructions in order, preceded by a compute price exactly when a nonzero fee is set, refers to the given or newest block at the wanted commitment, is paid by the wallet and signed by it and the given signers, and is sent once. The call ends with the signature exactly when the node confirms it without error at the wanted commitment; a failure found then names the transaction, any refusal is reported and nothing is sent after it. The callback is told the signature once and cannot disturb the call; settings of the call win over those of the client and those over the provider's.",
     "inputs fault_sequences",
     "every combination of settings of call, client and provider, kinds of wallet, signers and instructions, with every course of answers of wallet and node",
     "TypeScript tests need a network and are not part of the stable suite; failing answers cannot be had from a working node.",
     [T + "utils/rpc.ts", T + "client.ts"], [("sending", T + "utils/rpc.ts"), ("settings", T + "client.ts")], observe=["requests sent", "transaction sent", "result of the call", "callback"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    ids = set()
    for p in P:
        assert p["id"] not in ids and len(p["title"]) <= 80, p["id"]
        ids.add(p["id"])
        p["statement"] = p["statement"].strip()
        for f in p["anchors"]["files"]:
            assert os.path.exists("/repo/" + f), f
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
