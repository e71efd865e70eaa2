From 1084a499fe0abba6c52030f188d440480b141ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:26 +0000
Subject: [PATCH 01/34] fix: do not lose pegged orders behind an
 unrepresentable one

When the best oracle pegged order has no valid price at the current oracle
price, iterating the book skipped it but also advanced past the next order.
That order was then never matched. Peek again after skipping instead.
---
 programs/openbook-v2/src/state/orderbook/bookside_iterator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/programs/openbook-v2/src/state/orderbook/bookside_iterator.rs b/programs/openbook-v2/src/state/orderbook/bookside_iterator.rs
index 587b60c..7a7992f 100644
--- a/programs/openbook-v2/src/state/orderbook/bookside_iterator.rs
+++ b/programs/openbook-v2/src/state/orderbook/bookside_iterator.rs
@@ -179,7 +179,8 @@ impl<'a> Iterator for BookSideIter<'a> {
                 if oracle_pegged_price(oracle_price_lots, o_node, side).0 != OrderState::Skipped {
                     break;
                 }
-                o_peek = self.oracle_pegged_iter.next()
+                self.oracle_pegged_iter.next();
+                o_peek = self.oracle_pegged_iter.peek();
             }
             o_peek
         } else {
-- 
2.43.0


From 870f87432f517a60b0002b2eaffcdc76e4c28415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:26 +0000
Subject: [PATCH 02/34] fix: release the locked maker fee of a self-traded bid

A fixed price bid that trades against its own account pays no maker fee.
The fee locked when the bid was posted stayed locked and was later paid out
as a rounding remainder. Give it back when the fill is executed, as is
already done for pegged bids.
---
 programs/openbook-v2/src/state/open_orders_account.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/programs/openbook-v2/src/state/open_orders_account.rs b/programs/openbook-v2/src/state/open_orders_account.rs
index 81ad493..53d887b 100644
--- a/programs/openbook-v2/src/state/open_orders_account.rs
+++ b/programs/openbook-v2/src/state/open_orders_account.rs
@@ -162,6 +162,11 @@ impl OpenOrdersAccount {
             locked_amount_above_fill_price = quote_to_free + maker_fees_to_free;
             fill.peg_limit
         } else {
+            if is_self_trade && side == Side::Bid {
+                // No maker fee is charged, so the fee locked for this fill goes back to the owner
+                locked_maker_fees = market.maker_fees_floor(quote_native);
+                locked_amount_above_fill_price = locked_maker_fees;
+            }
             fill.price
         };
 
-- 
2.43.0


From 839856a2e6b4a41ce118d2cd4a73e6dafd1c86cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:26 +0000
Subject: [PATCH 03/34] fix: place the new order when editing an unfilled order

Editing an order of which nothing was filled cancelled it but placed
nothing, because only a positive filled amount was accepted.
---
 programs/openbook-v2/src/instructions/edit_order.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/openbook-v2/src/instructions/edit_order.rs b/programs/openbook-v2/src/instructions/edit_order.rs
index ebfea5a..a627a78 100644
--- a/programs/openbook-v2/src/instructions/edit_order.rs
+++ b/programs/openbook-v2/src/instructions/edit_order.rs
@@ -28,7 +28,7 @@ pub fn edit_order<'c: 'info, 'info>(
 
     let filled_amount = expected_cancel_size - leaf_node_quantity;
     // note that order.max_base_lots is checked to be > 0 inside `place_order`
-    if filled_amount > 0 && order.max_base_lots > filled_amount {
+    if filled_amount >= 0 && order.max_base_lots > filled_amount {
         // Do not reduce max_quote_lots_including_fees as implicitly it's limited by max_base_lots.
         order.max_base_lots -= filled_amount;
         return crate::instructions::place_order(ctx, order, limit);
-- 
2.43.0


From 181fcbf366030374d4e2bb4a0c6aa7660575f28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:26 +0000
Subject: [PATCH 04/34] fix: do not post an order that still crosses the book

Matching stopped as soon as the quote budget before fees was used up. Fees
that were not charged could then be used to post the rest of the order at a
price that crosses the next opposing order. Keep looking at the next
opposing order so that the existing negative spread check applies.
---
 programs/openbook-v2/src/state/orderbook/book.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/openbook-v2/src/state/orderbook/book.rs b/programs/openbook-v2/src/state/orderbook/book.rs
index 1c65b2f..2ec4cb8 100644
--- a/programs/openbook-v2/src/state/orderbook/book.rs
+++ b/programs/openbook-v2/src/state/orderbook/book.rs
@@ -123,7 +123,7 @@ impl<'a> Orderbook<'a> {
         let opposing_bookside = self.bookside_mut(other_side);
         for best_opposing in opposing_bookside.iter_all_including_invalid(now_ts, oracle_price_lots)
         {
-            if remaining_base_lots == 0 || remaining_quote_lots == 0 {
+            if remaining_base_lots == 0 {
                 break;
             }
 
-- 
2.43.0


From 7610b1aba58d18cb2b746e39b9ea3de5d2e0b824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:45 +0000
Subject: [PATCH 05/34] fix: stop matching when the quote budget ends inside an
 opposing order

---
 programs/openbook-v2/src/state/orderbook/book.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/programs/openbook-v2/src/state/orderbook/book.rs b/programs/openbook-v2/src/state/orderbook/book.rs
index 2ec4cb8..3f6eeaf 100644
--- a/programs/openbook-v2/src/state/orderbook/book.rs
+++ b/programs/openbook-v2/src/state/orderbook/book.rs
@@ -255,6 +255,13 @@ impl<'a> Orderbook<'a> {
             )?;
 
             limit -= 1;
+
+            // The quote budget does not cover the rest of this opposing order: neither take
+            // worse ones nor post in front of it
+            if !maker_out && remaining_base_lots > 0 {
+                post_target = None;
+                break;
+            }
         }
 
         let total_quote_lots_taken = order_max_quote_lots - remaining_quote_lots;
-- 
2.43.0


From 9f8eb63fdb80ced147a7daefbb5c76a01fb8e6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:48:25 +0000
Subject: [PATCH 06/34] fix: convert the quoted input amount to lots

---
 lib/client/src/jup.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/client/src/jup.rs b/lib/client/src/jup.rs
index 99efc53..84e9aba 100644
--- a/lib/client/src/jup.rs
+++ b/lib/client/src/jup.rs
@@ -149,10 +149,10 @@ impl Amm for OpenBookMarket {
         let (max_base_lots, max_quote_lots_including_fees) = match side {
             Side::Bid => (
                 self.market.max_base_lots(),
-                input_amount + (self.market.quote_lot_size - 1) / self.market.quote_lot_size,
+                input_amount / self.market.quote_lot_size,
             ),
             Side::Ask => (
-                input_amount + (self.market.base_lot_size - 1) / self.market.base_lot_size,
+                input_amount / self.market.base_lot_size,
                 self.market.max_quote_lots(),
             ),
         };
-- 
2.43.0


From 56a6c31752c397af068c411c71dd791a39b2c48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:48:25 +0000
Subject: [PATCH 07/34] fix: leave orders out of the quote once they have
 expired

---
 lib/client/src/jup.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/client/src/jup.rs b/lib/client/src/jup.rs
index 84e9aba..933cc29 100644
--- a/lib/client/src/jup.rs
+++ b/lib/client/src/jup.rs
@@ -171,7 +171,7 @@ impl Amm for OpenBookMarket {
             max_quote_lots_including_fees,
             &self.market,
             self.oracle_price,
-            0,
+            self.timestamp,
         )?;
 
         let (in_amount, out_amount) = match side {
-- 
2.43.0


From e3491e8b59157e5d709837e66e16d4d9333c881b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:48:25 +0000
Subject: [PATCH 08/34] fix: charge the taker fee in the quoted amounts

---
 lib/client/src/jup.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/client/src/jup.rs b/lib/client/src/jup.rs
index 933cc29..456f44f 100644
--- a/lib/client/src/jup.rs
+++ b/lib/client/src/jup.rs
@@ -176,12 +176,12 @@ impl Amm for OpenBookMarket {
 
         let (in_amount, out_amount) = match side {
             Side::Bid => (
-                order_amounts.total_quote_taken_native - order_amounts.fee,
+                order_amounts.total_quote_taken_native + order_amounts.fee,
                 order_amounts.total_base_taken_native,
             ),
             Side::Ask => (
                 order_amounts.total_base_taken_native,
-                order_amounts.total_quote_taken_native + order_amounts.fee,
+                order_amounts.total_quote_taken_native - order_amounts.fee,
             ),
         };
 
-- 
2.43.0


From 8ba7446e7952f645080fd458286d5706151fa337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:52:40 +0000
Subject: [PATCH 09/34] fix: do not list expired orders beyond the end of a
 simulated match

---
 lib/client/src/book.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/client/src/book.rs b/lib/client/src/book.rs
index 0877ba6..ec92383 100644
--- a/lib/client/src/book.rs
+++ b/lib/client/src/book.rs
@@ -108,6 +108,10 @@ pub fn iterate_book(
 
     let opposing_bookside = book.bookside(side.invert_side());
     for best_opposing in opposing_bookside.iter_all_including_invalid(now_ts, oracle_price_lots) {
+        if remaining_base_lots == 0 {
+            break;
+        }
+
         if !best_opposing.is_valid() {
             // Remove the order from the book unless we've done that enough
             if number_of_dropped_expired_orders < DROP_EXPIRED_ORDER_LIMIT {
@@ -117,7 +121,7 @@ pub fn iterate_book(
             continue;
         }
 
-        if remaining_base_lots == 0 || remaining_quote_lots == 0 || limit == 0 {
+        if remaining_quote_lots == 0 || limit == 0 {
             break;
         }
 
-- 
2.43.0


From 8de9da7a668006637f7be0867f439359bd37c0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:52:40 +0000
Subject: [PATCH 10/34] fix: stop the simulated match when the quote budget
 ends inside an opposing order

---
 lib/client/src/book.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/client/src/book.rs b/lib/client/src/book.rs
index ec92383..94cb2a9 100644
--- a/lib/client/src/book.rs
+++ b/lib/client/src/book.rs
@@ -148,6 +148,11 @@ pub fn iterate_book(
             accounts.push(best_opposing.node.owner);
             number_of_processed_fill_events += 1;
         }
+
+        // Matching stops when the quote budget ends inside an opposing order
+        if match_base_lots < best_opposing.node.quantity && remaining_base_lots > 0 {
+            break;
+        }
     }
 
     let total_base_lots_taken = order_max_base_lots - remaining_base_lots;
-- 
2.43.0


From 0bcda27b5dce19b90ba87a1a4c1779f7f649a821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:58:29 +0000
Subject: [PATCH 11/34] fix: put late slots of the best chain on the chain

---
 lib/client/src/chain_data.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/client/src/chain_data.rs b/lib/client/src/chain_data.rs
index 4db62c5..a2f839c 100644
--- a/lib/client/src/chain_data.rs
+++ b/lib/client/src/chain_data.rs
@@ -80,6 +80,8 @@ impl ChainData {
         use std::collections::hash_map::Entry;
         match self.slots.entry(new_slot.slot) {
             Entry::Vacant(v) => {
+                // the slot may be a late ancestor of the best chain
+                parent_update = true;
                 v.insert(new_slot);
             }
             Entry::Occupied(o) => {
-- 
2.43.0


From 6a75cb95778b8ef50582f53ab2a2ed92326ec061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:29 +0000
Subject: [PATCH 12/34] fix: treat an order as expired from its last second on
 in the TS book

---
 ts/client/src/accounts/bookSide.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ts/client/src/accounts/bookSide.ts b/ts/client/src/accounts/bookSide.ts
index 8103849..9b91a07 100644
--- a/ts/client/src/accounts/bookSide.ts
+++ b/ts/client/src/accounts/bookSide.ts
@@ -128,7 +128,7 @@ export class BookSide {
           this.market,
           leafNode,
           this.side,
-          this.clusterTime.gt(expiryTimestamp),
+          this.clusterTime.gte(expiryTimestamp),
         );
       }
     }
@@ -157,7 +157,7 @@ export class BookSide {
           this.market,
           leafNode,
           this.side,
-          this.clusterTime.gt(expiryTimestamp),
+          this.clusterTime.gte(expiryTimestamp),
           true,
         );
       }
-- 
2.43.0


From 6c5df1ef0f5fc79a390e1b41daa6f935afcdd069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:29 +0000
Subject: [PATCH 13/34] fix: keep the coder bound when decoding events in the
 TS client

---
 ts/client/src/accounts/eventHeap.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ts/client/src/accounts/eventHeap.ts b/ts/client/src/accounts/eventHeap.ts
index f49f2e9..97bf62d 100644
--- a/ts/client/src/accounts/eventHeap.ts
+++ b/ts/client/src/accounts/eventHeap.ts
@@ -23,17 +23,17 @@ export class EventHeap {
   }
 
   public *parsedEvents(): Generator<FillEvent | OutEvent> {
-    const { decode } = this.market.client.program.coder.types;
+    const { types } = this.market.client.program.coder;
     for (const event of this.rawEvents()) {
       // TODO find out how not to re-allocate
       const buffer = Buffer.from([event.eventType].concat(event.padding));
       switch (event.eventType) {
         case EventType.Fill: {
-          yield decode('FillEvent', buffer);
+          yield types.decode('FillEvent', buffer);
           continue;
         }
         case EventType.Out: {
-          yield decode('OutEvent', buffer);
+          yield types.decode('OutEvent', buffer);
           continue;
         }
       }
-- 
2.43.0


From 52c6a91edeb0686c894f2fd43f96179269e35fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:29 +0000
Subject: [PATCH 14/34] fix: decode open orders updates under the account's
 name in the TS client

---
 ts/client/src/utils/watcher.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts/client/src/utils/watcher.ts b/ts/client/src/utils/watcher.ts
index dcec4eb..8313dcb 100644
--- a/ts/client/src/utils/watcher.ts
+++ b/ts/client/src/utils/watcher.ts
@@ -62,7 +62,7 @@ export class Watcher {
       pubkey,
       (ai) => {
         openOrders.account = market.client.program.coder.accounts.decode(
-          'OpenOrders',
+          'openOrdersAccount',
           ai.data,
         );
       },
-- 
2.43.0


From 19072a22d80fbb39974904815a3f89855dd7f81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:29 +0000
Subject: [PATCH 15/34] fix: count fills of the open orders account, without
 maker fee on self trades

---
 ts/client/src/accounts/openOrders.ts | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ts/client/src/accounts/openOrders.ts b/ts/client/src/accounts/openOrders.ts
index 20ad2e8..f85b2b8 100644
--- a/ts/client/src/accounts/openOrders.ts
+++ b/ts/client/src/accounts/openOrders.ts
@@ -147,11 +147,15 @@ export class OpenOrders {
       for (const event of this.market.eventHeap.parsedEvents()) {
         switch (event.eventType) {
           case EventType.Fill: {
-            const { maker, quantity, price, takerSide } = event as FillEvent;
-            if (maker.equals(this.account.owner)) {
+            const { maker, taker, quantity, price, takerSide } =
+              event as FillEvent;
+            if (maker.equals(this.pubkey)) {
               const baseNative = quantity.mul(baseLotSize);
               const quoteNative = quantity.mul(price).imul(quoteLotSize);
-              const quoteFeesNative = this.market.makerFeeFloor(quoteNative);
+              // no maker fee is charged on self trades
+              const quoteFeesNative = maker.equals(taker)
+                ? new BN(0)
+                : this.market.makerFeeFloor(quoteNative);
               if (takerSide === 1) {
                 // buy
                 base.iadd(baseNative);
-- 
2.43.0


From 95cb134c552d4c0aa00436fdc8b72cc558a4de26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:29 +0000
Subject: [PATCH 16/34] fix: let the delegate sign cancellations built by the
 TS client

---
 ts/client/src/client.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ts/client/src/client.ts b/ts/client/src/client.ts
index f28d1ab..6d65023 100644
--- a/ts/client/src/client.ts
+++ b/ts/client/src/client.ts
@@ -817,7 +817,7 @@ export class OpenBookV2Client {
     const ix = await this.program.methods
       .cancelOrder(orderId)
       .accounts({
-        signer: openOrdersAccount.owner,
+        signer: openOrdersDelegate?.publicKey ?? openOrdersAccount.owner,
         asks: market.asks,
         bids: market.bids,
         market: openOrdersAccount.market,
@@ -841,7 +841,7 @@ export class OpenBookV2Client {
     const ix = await this.program.methods
       .cancelOrderByClientOrderId(clientOrderId)
       .accounts({
-        signer: openOrdersAccount.owner,
+        signer: openOrdersDelegate?.publicKey ?? openOrdersAccount.owner,
         asks: market.asks,
         bids: market.bids,
         market: openOrdersAccount.market,
@@ -866,7 +866,7 @@ export class OpenBookV2Client {
     const ix = await this.program.methods
       .cancelAllOrders(side, limit)
       .accounts({
-        signer: openOrdersAccount.owner,
+        signer: openOrdersDelegate?.publicKey ?? openOrdersAccount.owner,
         asks: market.asks,
         bids: market.bids,
         market: openOrdersAccount.market,
-- 
2.43.0


From e898b03eac823a06423587227b424d887ee585aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:29 +0000
Subject: [PATCH 17/34] fix: close the open orders indexer rather than the book
 sides in the TS client

---
 ts/client/src/client.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ts/client/src/client.ts b/ts/client/src/client.ts
index 6d65023..669d24d 100644
--- a/ts/client/src/client.ts
+++ b/ts/client/src/client.ts
@@ -893,8 +893,8 @@ export class OpenBookV2Client {
         .closeOpenOrdersIndexer()
         .accounts({
           owner: owner.publicKey,
-          openOrdersIndexer: market.asks,
-          solDestination: market.bids,
+          openOrdersIndexer,
+          solDestination: owner.publicKey,
           tokenProgram: TOKEN_PROGRAM_ID,
         })
         .instruction();
-- 
2.43.0


From 2a3c0a80509d0c6721f2af50d342fb0365e639dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:29 +0000
Subject: [PATCH 18/34] fix: leave out the consume events admin when there is
 none in the TS client

---
 ts/client/src/client.ts | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/ts/client/src/client.ts b/ts/client/src/client.ts
index 669d24d..fe2137e 100644
--- a/ts/client/src/client.ts
+++ b/ts/client/src/client.ts
@@ -974,6 +974,11 @@ export class OpenBookV2Client {
     throw new Error('No open order indexer for the specified owner');
   }
 
+  private consumeEventsAdmin(market: MarketAccount): PublicKey | null {
+    const { key } = market.consumeEventsAdmin;
+    return key.equals(PublicKey.default) ? null : key;
+  }
+
   // Use getAccountsToConsume as a helper
   public async consumeEventsIx(
     marketPublicKey: PublicKey,
@@ -987,18 +992,12 @@ export class OpenBookV2Client {
       isWritable: true,
     }));
 
-    const eventAdminBs58 = market.consumeEventsAdmin.key.toBase58();
-    const consumeEventsAdmin =
-      eventAdminBs58 === PublicKey.default.toBase58()
-        ? null
-        : market.consumeEventsAdmin.key;
-
     const ix = await this.program.methods
       .consumeEvents(limit)
       .accounts({
         eventHeap: market.eventHeap,
         market: marketPublicKey,
-        consumeEventsAdmin,
+        consumeEventsAdmin: this.consumeEventsAdmin(market),
       })
       .remainingAccounts(accountsMeta)
       .instruction();
@@ -1029,7 +1028,7 @@ export class OpenBookV2Client {
       .accounts({
         eventHeap: market.eventHeap,
         market: marketPublicKey,
-        consumeEventsAdmin: market.consumeEventsAdmin.key,
+        consumeEventsAdmin: this.consumeEventsAdmin(market),
       })
       .remainingAccounts(accountsMeta)
       .instruction();
@@ -1053,7 +1052,7 @@ export class OpenBookV2Client {
       .accounts({
         eventHeap: market.eventHeap,
         market: marketPublicKey,
-        consumeEventsAdmin: market.consumeEventsAdmin.key,
+        consumeEventsAdmin: this.consumeEventsAdmin(market),
       })
       .remainingAccounts(accountsMeta)
       .instruction();
-- 
2.43.0


From fd12c922804e4ea25b4cad3313573eee892859f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:29 +0000
Subject: [PATCH 19/34] fix: find queued events by key and skip unused slots in
 the TS client

---
 ts/client/src/client.ts | 70 ++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 36 deletions(-)

diff --git a/ts/client/src/client.ts b/ts/client/src/client.ts
index fe2137e..2783750 100644
--- a/ts/client/src/client.ts
+++ b/ts/client/src/client.ts
@@ -1013,10 +1013,11 @@ export class OpenBookV2Client {
     const slots = await this.getSlotsToConsume(openOrdersAccount, market);
 
     const allAccounts = await this.getAccountsToConsume(market);
-    // Create a set to remove duplicates
-    const uniqueAccounts = new Set([openOrdersAccount, ...allAccounts]);
     // Limit extra accounts to 10 due tx limit and add openOrdersAccount
-    const remainingAccounts = [...uniqueAccounts].slice(0, 10);
+    const remainingAccounts = [
+      openOrdersAccount,
+      ...allAccounts.filter((a) => !a.equals(openOrdersAccount)),
+    ].slice(0, 10);
     const accountsMeta: AccountMeta[] = remainingAccounts.map((remaining) => ({
       pubkey: remaining,
       isSigner: false,
@@ -1089,27 +1090,11 @@ export class OpenBookV2Client {
   public async getAccountsToConsume(
     market: MarketAccount,
   ): Promise<PublicKey[]> {
-    let accounts: PublicKey[] = new Array<PublicKey>();
+    const accounts: PublicKey[] = [];
     const eventHeap = await this.deserializeEventHeapAccount(market.eventHeap);
     if (eventHeap != null) {
-      for (const node of eventHeap.nodes) {
-        if (node.event.eventType === 0) {
-          const fillEvent: FillEvent = this.program.coder.types.decode(
-            'FillEvent',
-            Buffer.from([0, ...node.event.padding]),
-          );
-          accounts = accounts
-            .filter((a) => a !== fillEvent.maker)
-            .concat([fillEvent.maker]);
-        } else {
-          const outEvent: OutEvent = this.program.coder.types.decode(
-            'OutEvent',
-            Buffer.from([0, ...node.event.padding]),
-          );
-          accounts = accounts
-            .filter((a) => a !== outEvent.owner)
-            .concat([outEvent.owner]);
-        }
+      for (const [_slot, account] of this.queuedEvents(eventHeap)) {
+        if (!accounts.some((a) => a.equals(account))) accounts.push(account);
         // Tx would be too big, do not add more accounts
         if (accounts.length > 20) return accounts;
       }
@@ -1125,24 +1110,37 @@ export class OpenBookV2Client {
 
     const eventHeap = await this.deserializeEventHeapAccount(market.eventHeap);
     if (eventHeap != null) {
-      for (const [i, node] of eventHeap.nodes.entries()) {
-        if (node.event.eventType === 0) {
-          const fillEvent: FillEvent = this.program.coder.types.decode(
-            'FillEvent',
-            Buffer.from([0, ...node.event.padding]),
-          );
-          if (key === fillEvent.maker) slots.push(new BN(i));
-        } else {
-          const outEvent: OutEvent = this.program.coder.types.decode(
-            'OutEvent',
-            Buffer.from([0, ...node.event.padding]),
-          );
-          if (key === outEvent.owner) slots.push(new BN(i));
-        }
+      for (const [slot, account] of this.queuedEvents(eventHeap)) {
+        if (account.equals(key)) slots.push(new BN(slot));
       }
     }
     return slots;
   }
+
+  // Slots of the queued events, each with the open orders account it belongs to
+  private *queuedEvents(
+    eventHeap: EventHeapAccount,
+  ): Generator<[number, PublicKey]> {
+    let slot = eventHeap.header.usedHead;
+    for (let i = 0; i < eventHeap.header.count; ++i) {
+      const { event, next } = eventHeap.nodes[slot];
+      const buffer = Buffer.from([event.eventType, ...event.padding]);
+      if (event.eventType === 0) {
+        const fillEvent: FillEvent = this.program.coder.types.decode(
+          'FillEvent',
+          buffer,
+        );
+        yield [slot, fillEvent.maker];
+      } else {
+        const outEvent: OutEvent = this.program.coder.types.decode(
+          'OutEvent',
+          buffer,
+        );
+        yield [slot, outEvent.owner];
+      }
+      slot = next;
+    }
+  }
 }
 
 export async function getFilteredProgramAccounts(
-- 
2.43.0


From 3cf205c311e5cc99dc62ee87dcfd84993380aac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:29 +0000
Subject: [PATCH 20/34] fix: compare the mints at their place in the market
 account in the TS client

---
 ts/client/src/market.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ts/client/src/market.ts b/ts/client/src/market.ts
index d9ea16d..7d8b77c 100644
--- a/ts/client/src/market.ts
+++ b/ts/client/src/market.ts
@@ -31,13 +31,13 @@ export async function findAccountsByMints(
   const filters = [
     {
       memcmp: {
-        offset: 792,
+        offset: 576,
         bytes: baseMintAddress.toBase58(),
       },
     },
     {
       memcmp: {
-        offset: 824,
+        offset: 608,
         bytes: quoteMintAddress.toBase58(),
       },
     },
-- 
2.43.0


From fdbcf15dbba5b0bf4480201ddf591e73b15354b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:29 +0000
Subject: [PATCH 21/34] fix: go through all batches of signatures when listing
 markets

---
 ts/client/src/market.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts/client/src/market.ts b/ts/client/src/market.ts
index 7d8b77c..38adbcf 100644
--- a/ts/client/src/market.ts
+++ b/ts/client/src/market.ts
@@ -72,7 +72,7 @@ export async function findAllMarkets(
   ).map((x) => x.signature);
   const batchSignatures: [string[]] = [[]];
   for (let i = 0; i < signatures.length; i += BATCH_TX_SIZE) {
-    batchSignatures.push(signatures.slice(0, BATCH_TX_SIZE));
+    batchSignatures.push(signatures.slice(i, i + BATCH_TX_SIZE));
   }
   for (const batch of batchSignatures) {
     const allTxs = await connection.getTransactions(batch, {
-- 
2.43.0


From 68bfca87439171e74b6d3d34ad7fde44f8c66c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:29 +0000
Subject: [PATCH 22/34] fix: convert UI prices to lots without rounding the
 price first

---
 ts/client/src/market.ts | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ts/client/src/market.ts b/ts/client/src/market.ts
index 38adbcf..df6fe8f 100644
--- a/ts/client/src/market.ts
+++ b/ts/client/src/market.ts
@@ -143,9 +143,10 @@ function quoteLotsToUiConverter(market: MarketAccount): number {
 }
 
 export function uiPriceToLots(market: MarketAccount, price: number): BN {
-  return toNative(price, market.quoteDecimals)
-    .mul(market.baseLotSize)
-    .div(market.quoteLotSize.mul(new BN(Math.pow(10, market.baseDecimals))));
+  return toNative(
+    price * Number(market.baseLotSize.toString()),
+    market.quoteDecimals,
+  ).div(market.quoteLotSize.mul(new BN(Math.pow(10, market.baseDecimals))));
 }
 
 export function uiBaseToLots(market: MarketAccount, quantity: number): BN {
-- 
2.43.0


From 1776f6cff9314da25e3b098d864abb2d267bdc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:34:43 +0000
Subject: [PATCH 23/34] fix: pass the open orders admin when the Rust client
 places orders

place_order and place_order_pegged always left the admin out, so every order
sent through the client to a market with an open orders admin was refused.
---
 lib/client/src/client.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/client/src/client.rs b/lib/client/src/client.rs
index 0e7c45a..145dd42 100644
--- a/lib/client/src/client.rs
+++ b/lib/client/src/client.rs
@@ -399,7 +399,7 @@ impl OpenBookClient {
                 anchor_lang::ToAccountMetas::to_account_metas(
                     &openbook_v2::accounts::PlaceOrder {
                         open_orders_account: self.open_orders_account,
-                        open_orders_admin: None,
+                        open_orders_admin: market.open_orders_admin.into(),
                         signer: self.owner(),
                         market: market_address,
                         bids: market.bids,
@@ -455,7 +455,7 @@ impl OpenBookClient {
                 anchor_lang::ToAccountMetas::to_account_metas(
                     &openbook_v2::accounts::PlaceOrder {
                         open_orders_account: self.open_orders_account,
-                        open_orders_admin: None,
+                        open_orders_admin: market.open_orders_admin.into(),
                         signer: self.owner(),
                         market: market_address,
                         bids: market.bids,
-- 
2.43.0


From fa7a8d99623085c98e05812d05d61481357820ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:34:43 +0000
Subject: [PATCH 24/34] fix: let the Rust client create open orders accounts by
 name

find_or_create_account numbered the first account 0 and later ones after the
highest number still in use, while the program counts the accounts ever
created starting from 1.  It also needed an existing indexer, and took an
account of the same name on another market for the one asked for.
---
 lib/client/src/client.rs | 77 ++++++++++++++++++++++++----------------
 1 file changed, 46 insertions(+), 31 deletions(-)

diff --git a/lib/client/src/client.rs b/lib/client/src/client.rs
index 145dd42..3788041 100644
--- a/lib/client/src/client.rs
+++ b/lib/client/src/client.rs
@@ -13,7 +13,9 @@ use itertools::Itertools;
 
 use openbook_v2::state::OracleConfigParams;
 use openbook_v2::{
-    state::{Market, OpenOrdersAccount, PlaceOrderType, SelfTradeBehavior, Side},
+    state::{
+        Market, OpenOrdersAccount, OpenOrdersIndexer, PlaceOrderType, SelfTradeBehavior, Side,
+    },
     PlaceMultipleOrdersArgs, PlaceOrderArgs, PlaceOrderPeggedArgs,
 };
 
@@ -119,37 +121,50 @@ impl OpenBookClient {
         let rpc = client.rpc_async();
         let program = openbook_v2::ID;
 
-        let mut openbook_account_tuples =
-            fetch_openbook_accounts(&rpc, program, owner.pubkey()).await?;
-        let openbook_account_opt = openbook_account_tuples
-            .iter()
-            .find(|(_, account)| account.name() == openbook_account_name);
-        if openbook_account_opt.is_none() {
-            openbook_account_tuples
-                .sort_by(|a, b| a.1.account_num.partial_cmp(&b.1.account_num).unwrap());
-            let account_num = match openbook_account_tuples.last() {
-                Some(tuple) => tuple.1.account_num + 1,
-                None => 0u32,
-            };
-            Self::create_open_orders_account(
-                client,
-                market,
-                owner,
-                payer,
-                None,
-                account_num,
-                openbook_account_name,
-            )
-            .await
-            .context("Failed to create account...")?;
+        let openbook_account_opt = fetch_openbook_accounts(&rpc, program, owner.pubkey())
+            .await?
+            .into_iter()
+            .find(|(_, account)| {
+                account.market == market && account.name() == openbook_account_name
+            });
+        if let Some((address, _)) = openbook_account_opt {
+            return Ok(address);
         }
-        let openbook_account_tuples =
-            fetch_openbook_accounts(&rpc, program, owner.pubkey()).await?;
-        let index = openbook_account_tuples
-            .iter()
-            .position(|tuple| tuple.1.name() == openbook_account_name)
-            .unwrap();
-        Ok(openbook_account_tuples[index].0)
+
+        let open_orders_indexer = Pubkey::find_program_address(
+            &[b"OpenOrdersIndexer".as_ref(), owner.pubkey().as_ref()],
+            &program,
+        )
+        .0;
+        let indexer_account = rpc
+            .get_account_with_commitment(&open_orders_indexer, client.commitment)
+            .await?
+            .value
+            .filter(|account| account.owner == program);
+        let account_num = match indexer_account {
+            Some(account) => {
+                OpenOrdersIndexer::try_deserialize(&mut (&account.data as &[u8]))?.created_counter
+                    + 1
+            }
+            None => {
+                Self::create_open_orders_indexer(client, owner, payer)
+                    .await
+                    .context("Failed to create indexer...")?;
+                1
+            }
+        };
+        let (address, _) = Self::create_open_orders_account(
+            client,
+            market,
+            owner,
+            payer,
+            None,
+            account_num,
+            openbook_account_name,
+        )
+        .await
+        .context("Failed to create account...")?;
+        Ok(address)
     }
 
     pub async fn create_open_orders_indexer(
-- 
2.43.0


From af830025615beec54d31d6b7fb995aad976484dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:34:43 +0000
Subject: [PATCH 25/34] fix: pass the accounts of the events when the Rust
 client consumes them

consume_events sent no open orders accounts, so the program skipped every
event.  It also added the owner's signature to a transaction that does not
need it, which cannot be signed unless the owner pays the fees.
---
 lib/client/src/client.rs | 45 ++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/lib/client/src/client.rs b/lib/client/src/client.rs
index 3788041..9fc1637 100644
--- a/lib/client/src/client.rs
+++ b/lib/client/src/client.rs
@@ -5,7 +5,7 @@ use std::time::Duration;
 use anchor_client::Cluster;
 
 use anchor_lang::prelude::System;
-use anchor_lang::{AccountDeserialize, Id};
+use anchor_lang::{AccountDeserialize, AnchorDeserialize, Id};
 use anchor_spl::associated_token::AssociatedToken;
 use anchor_spl::token::Token;
 
@@ -14,7 +14,8 @@ use itertools::Itertools;
 use openbook_v2::state::OracleConfigParams;
 use openbook_v2::{
     state::{
-        Market, OpenOrdersAccount, OpenOrdersIndexer, PlaceOrderType, SelfTradeBehavior, Side,
+        AnyEvent, EventHeap, EventType, FillEvent, Market, OpenOrdersAccount, OpenOrdersIndexer,
+        OutEvent, PlaceOrderType, SelfTradeBehavior, Side,
     },
     PlaceMultipleOrdersArgs, PlaceOrderArgs, PlaceOrderPeggedArgs,
 };
@@ -31,10 +32,22 @@ use crate::account_fetcher::*;
 use crate::gpa::{fetch_anchor_account, fetch_openbook_accounts};
 
 use anyhow::Context;
-use solana_sdk::instruction::Instruction;
+use solana_sdk::instruction::{AccountMeta, Instruction};
 use solana_sdk::signature::{Keypair, Signature};
 use solana_sdk::{commitment_config::CommitmentConfig, pubkey::Pubkey, signer::Signer};
 
+// Max events consumed per instruction, see consume_events of the program.
+const MAX_EVENTS_CONSUME: usize = 8;
+
+/// The open orders account an event has to be applied to.
+fn event_account(event: &AnyEvent) -> anyhow::Result<Pubkey> {
+    let data = [&[event.event_type], &event.padding[..]].concat();
+    Ok(match EventType::try_from(event.event_type)? {
+        EventType::Fill => FillEvent::try_from_slice(&data)?.maker,
+        EventType::Out => OutEvent::try_from_slice(&data)?.owner,
+    })
+}
+
 // very close to anchor_client::Client, which unfortunately has no accessors or Clone
 #[derive(Clone, Debug)]
 pub struct Client {
@@ -688,23 +701,43 @@ impl OpenBookClient {
         market_address: Pubkey,
         limit: usize,
     ) -> anyhow::Result<Signature> {
+        // the program skips events whose account isn't passed to it
+        let event_heap: EventHeap = self.client.rpc_anchor_account(&market.event_heap).await?;
+        let event_accounts = event_heap
+            .iter()
+            .take(limit.min(MAX_EVENTS_CONSUME))
+            .map(|(event, _slot)| event_account(event))
+            .collect::<anyhow::Result<Vec<Pubkey>>>()?;
+
         let ix = Instruction {
             program_id: openbook_v2::id(),
             accounts: {
-                anchor_lang::ToAccountMetas::to_account_metas(
+                let mut accounts = anchor_lang::ToAccountMetas::to_account_metas(
                     &openbook_v2::accounts::ConsumeEvents {
                         consume_events_admin: market.consume_events_admin.into(),
                         market: market_address,
                         event_heap: market.event_heap,
                     },
                     None,
-                )
+                );
+                accounts.extend(
+                    event_accounts
+                        .into_iter()
+                        .unique()
+                        .map(|account| AccountMeta::new(account, false)),
+                );
+                accounts
             },
             data: anchor_lang::InstructionData::data(&openbook_v2::instruction::ConsumeEvents {
                 limit,
             }),
         };
-        self.send_and_confirm_owner_tx(vec![ix]).await
+        // the owner only signs when it's the admin of the events
+        if Option::<Pubkey>::from(market.consume_events_admin) == Some(self.owner()) {
+            self.send_and_confirm_owner_tx(vec![ix]).await
+        } else {
+            self.send_and_confirm_permissionless_tx(vec![ix]).await
+        }
     }
 
     pub async fn send_and_confirm_owner_tx(
-- 
2.43.0


From eb5c84d6fb7e61f492528f9079ae36d9e5727051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:35:22 +0000
Subject: [PATCH 26/34] fix: scale base sizes by a power of ten in the Rust
 client

max_base_lots_from_usd multiplied the size by the number of decimals of the
base token instead of by ten to the power of it.
---
 lib/client/src/context.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/client/src/context.rs b/lib/client/src/context.rs
index 04675c0..e90d010 100644
--- a/lib/client/src/context.rs
+++ b/lib/client/src/context.rs
@@ -15,7 +15,7 @@ impl MarketContext {
         self.max_quote_lots_including_maker_fees(quote_size_usd * 10u64.pow(6))
     }
     pub fn max_base_lots_from_usd(&self, base_size: u64) -> u64 {
-        self.max_base_lots(base_size * self.market.base_decimals as u64)
+        self.max_base_lots(base_size * 10u64.pow(self.market.base_decimals as u32))
     }
 
     // For orders where matching is possible, therefore taker fees can apply. Assume order incurs in max fees.
-- 
2.43.0


From d70ab67187704409a86f151f87b5dfce8dde5a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:35:22 +0000
Subject: [PATCH 27/34] fix: convert fees to lots in the Rust client's order
 sizes

max_quote_lots_including_taker_fees and max_quote_lots_including_maker_fees
added fees in native units to a number of lots.
---
 lib/client/src/context.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/client/src/context.rs b/lib/client/src/context.rs
index e90d010..0c5f80e 100644
--- a/lib/client/src/context.rs
+++ b/lib/client/src/context.rs
@@ -20,18 +20,16 @@ impl MarketContext {
 
     // For orders where matching is possible, therefore taker fees can apply. Assume order incurs in max fees.
     pub fn max_quote_lots_including_taker_fees(&self, quote_size: u64) -> u64 {
-        let quote_lots: u64 = quote_size / (self.market.quote_lot_size as u64);
         let fees: u64 = ((quote_size as i128 * self.market.taker_fee as i128)
             / (FEES_SCALE_FACTOR + self.market.taker_fee as i128))
             .try_into()
             .unwrap();
-        quote_lots + fees
+        (quote_size + fees) / (self.market.quote_lot_size as u64)
     }
     // For PostOnly or PostOnlySlide orders.
     pub fn max_quote_lots_including_maker_fees(&self, quote_size: u64) -> u64 {
-        let quote_lots: u64 = quote_size / (self.market.quote_lot_size as u64);
         let fees: u64 = self.market.maker_fees_floor(quote_size);
-        quote_lots + fees
+        (quote_size + fees) / (self.market.quote_lot_size as u64)
     }
 
     pub fn max_base_lots(&self, base_size: u64) -> u64 {
-- 
2.43.0


From 185cdbced4c982f7200dbd172fb5ea38af780875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:35:22 +0000
Subject: [PATCH 28/34] fix: report accounts too short to read instead of
 panicking

try_deserialize_from_slice of the Rust client panicked on data shorter than
the account type, for example of an account that was closed meanwhile.
---
 lib/client/src/util.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/client/src/util.rs b/lib/client/src/util.rs
index fd771de..3eb72e3 100644
--- a/lib/client/src/util.rs
+++ b/lib/client/src/util.rs
@@ -1,4 +1,7 @@
-use anchor_lang::{error::Error, AccountDeserialize, ZeroCopy};
+use anchor_lang::{
+    error::{Error, ErrorCode},
+    AccountDeserialize, ZeroCopy,
+};
 use solana_client::{
     client_error::Result as ClientResult, rpc_client::RpcClient, rpc_request::RpcError,
 };
@@ -20,7 +23,10 @@ pub trait ZeroCopyDeserialize {
 
 impl<T: AccountDeserialize + ZeroCopy> ZeroCopyDeserialize for T {
     fn try_deserialize_from_slice(buf: &mut &[u8]) -> Result<Self, Error> {
-        Self::try_deserialize(&mut &buf[..std::mem::size_of::<Self>() + 8])
+        let mut data = buf
+            .get(..std::mem::size_of::<Self>() + 8)
+            .ok_or(ErrorCode::AccountDidNotDeserialize)?;
+        Self::try_deserialize(&mut data)
     }
 }
 
-- 
2.43.0


From a4e9f49815d1470b9ff5addf84d6629fe3dac47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:12:26 +0000
Subject: [PATCH 29/34] fix: report malformed keys in snapshots instead of
 ending the task

---
 lib/client/src/snapshot_source.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/client/src/snapshot_source.rs b/lib/client/src/snapshot_source.rs
index 22943f0..ae4067f 100644
--- a/lib/client/src/snapshot_source.rs
+++ b/lib/client/src/snapshot_source.rs
@@ -34,7 +34,7 @@ impl AccountSnapshot {
         for a in rpc.value {
             self.accounts.push(AccountUpdate {
                 slot: rpc.context.slot,
-                pubkey: Pubkey::from_str(&a.pubkey).unwrap(),
+                pubkey: Pubkey::from_str(&a.pubkey)?,
                 account: a
                     .account
                     .decode()
-- 
2.43.0


From cd2dcf10cbcf93ab19d9ecf7906aa2c9f4143c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:12:26 +0000
Subject: [PATCH 30/34] fix: keep waiting when the slot request of the snapshot
 source fails

---
 lib/client/src/snapshot_source.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/client/src/snapshot_source.rs b/lib/client/src/snapshot_source.rs
index ae4067f..15c46e3 100644
--- a/lib/client/src/snapshot_source.rs
+++ b/lib/client/src/snapshot_source.rs
@@ -174,13 +174,19 @@ pub fn start(
         loop {
             poll_wait_first_snapshot.tick().await;
 
-            let epoch_info = rpc_client
+            let epoch_info = match rpc_client
                 .get_epoch_info(Some(RpcContextConfig {
                     commitment: Some(CommitmentConfig::finalized()),
                     min_context_slot: None,
                 }))
                 .await
-                .expect("always Ok");
+            {
+                Ok(epoch_info) => epoch_info,
+                Err(err) => {
+                    warn!("could not get the latest slot: {:?}", err);
+                    continue;
+                }
+            };
             log::debug!("latest slot for snapshot {}", epoch_info.absolute_slot);
 
             if epoch_info.absolute_slot > config.min_slot {
-- 
2.43.0


From a6f27eaa09b0ada5a3af7592c2d4689b87b4e3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:12:26 +0000
Subject: [PATCH 31/34] Expose the chain data fetcher to external checks behind
 a feature

---
 lib/client/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/client/src/lib.rs b/lib/client/src/lib.rs
index fea7ca7..a38a85a 100644
--- a/lib/client/src/lib.rs
+++ b/lib/client/src/lib.rs
@@ -16,3 +16,7 @@ mod gpa;
 mod jup;
 pub mod snapshot_source;
 mod util;
+
+// Lets external checks reach the fetcher, which nothing in here uses.
+#[cfg(feature = "verif-hooks")]
+pub use chain_data_fetcher::AccountFetcher as ChainDataAccountFetcher;
-- 
2.43.0


From 2b96ddcd84045104c4427d764684476fd49a678e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:15:20 +0000
Subject: [PATCH 32/34] fix: place orders without a quote limit on markets with
 quote lots above one

The program refuses limits beyond what the market can express in native
units, so orders placed without quoteLimit always failed.
---
 ts/client/src/accounts/openOrders.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ts/client/src/accounts/openOrders.ts b/ts/client/src/accounts/openOrders.ts
index f85b2b8..a31566e 100644
--- a/ts/client/src/accounts/openOrders.ts
+++ b/ts/client/src/accounts/openOrders.ts
@@ -434,7 +434,7 @@ export class OpenOrders {
     const maxBaseLots = this.market.baseUiToLots(order.size);
     const maxQuoteLotsIncludingFees = order.quoteLimit
       ? new BN(order.quoteLimit)
-      : I64_MAX_BN;
+      : I64_MAX_BN.div(this.market.account.quoteLotSize);
     const clientOrderId = new BN(order.clientOrderId || Date.now());
     const orderType = order.orderType ?? PlaceOrderTypeUtils.Limit;
     const expiryTimestamp = new BN(order.expiryTimestamp ?? 0);
-- 
2.43.0


From 17773407ddfac45633b0634c26dace962702f8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:15:20 +0000
Subject: [PATCH 33/34] fix: consume events of heaps in accounts larger than
 needed

Event heaps may live in larger accounts; reading one panicked.
---
 lib/client/src/client.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/client/src/client.rs b/lib/client/src/client.rs
index 9fc1637..2f61ad6 100644
--- a/lib/client/src/client.rs
+++ b/lib/client/src/client.rs
@@ -30,6 +30,7 @@ use solana_sdk::transaction::TransactionError;
 
 use crate::account_fetcher::*;
 use crate::gpa::{fetch_anchor_account, fetch_openbook_accounts};
+use crate::util::ZeroCopyDeserialize;
 
 use anyhow::Context;
 use solana_sdk::instruction::{AccountMeta, Instruction};
@@ -702,7 +703,8 @@ impl OpenBookClient {
         limit: usize,
     ) -> anyhow::Result<Signature> {
         // the program skips events whose account isn't passed to it
-        let event_heap: EventHeap = self.client.rpc_anchor_account(&market.event_heap).await?;
+        let account = self.client.rpc_async().get_account(&market.event_heap).await?;
+        let event_heap = EventHeap::try_deserialize_from_slice(&mut account.data.as_slice())?;
         let event_accounts = event_heap
             .iter()
             .take(limit.min(MAX_EVENTS_CONSUME))
-- 
2.43.0


From e37b23e11155b30cd2d00ec5b4d50ebc86edd1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:15:20 +0000
Subject: [PATCH 34/34] fix: read open orders accounts of unexpected length
 without panicking

Longer accounts are read from their start, shorter ones are an error.
---
 lib/client/src/account_fetcher.rs    | 4 +++-
 lib/client/src/chain_data_fetcher.rs | 4 ++--
 lib/client/src/gpa.rs                | 4 +++-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/client/src/account_fetcher.rs b/lib/client/src/account_fetcher.rs
index 257d851..a48aac7 100644
--- a/lib/client/src/account_fetcher.rs
+++ b/lib/client/src/account_fetcher.rs
@@ -15,6 +15,8 @@ use solana_sdk::pubkey::Pubkey;
 
 use openbook_v2::state::OpenOrdersAccount;
 
+use crate::util::ZeroCopyDeserialize;
+
 #[async_trait::async_trait]
 pub trait AccountFetcher: Sync + Send {
     async fn fetch_raw_account(&self, address: &Pubkey) -> anyhow::Result<AccountSharedData>;
@@ -49,7 +51,7 @@ pub async fn account_fetcher_fetch_openorders_account(
 ) -> anyhow::Result<OpenOrdersAccount> {
     let account = fetcher.fetch_raw_account(address).await?;
     let mut data: &[u8] = account.data();
-    OpenOrdersAccount::try_deserialize(&mut data)
+    OpenOrdersAccount::try_deserialize_from_slice(&mut data)
         .with_context(|| format!("deserializing open orders account {}", address))
 }
 
diff --git a/lib/client/src/chain_data_fetcher.rs b/lib/client/src/chain_data_fetcher.rs
index 46e5a6c..7711708 100644
--- a/lib/client/src/chain_data_fetcher.rs
+++ b/lib/client/src/chain_data_fetcher.rs
@@ -3,10 +3,10 @@ use std::thread;
 use std::time::{Duration, Instant};
 
 use crate::chain_data::*;
+use crate::util::ZeroCopyDeserialize;
 
 use anchor_lang::Discriminator;
 
-use anchor_lang::AccountDeserialize;
 use openbook_v2::accounts_zerocopy::LoadZeroCopy;
 use openbook_v2::state::OpenOrdersAccount;
 
@@ -51,7 +51,7 @@ impl AccountFetcher {
             anyhow::bail!("not a openorders account at {}", address);
         }
 
-        OpenOrdersAccount::try_deserialize(&mut data)
+        OpenOrdersAccount::try_deserialize_from_slice(&mut data)
             .with_context(|| format!("loading openorders account {}", address))
     }
 
diff --git a/lib/client/src/gpa.rs b/lib/client/src/gpa.rs
index 2709b07..298f0b7 100644
--- a/lib/client/src/gpa.rs
+++ b/lib/client/src/gpa.rs
@@ -8,6 +8,8 @@ use solana_client::rpc_config::{RpcAccountInfoConfig, RpcProgramAccountsConfig};
 use solana_client::rpc_filter::{Memcmp, RpcFilterType};
 use solana_sdk::pubkey::Pubkey;
 
+use crate::util::ZeroCopyDeserialize;
+
 pub async fn fetch_openbook_accounts(
     rpc: &RpcClientAsync,
     program: Pubkey,
@@ -33,7 +35,7 @@ pub async fn fetch_openbook_accounts(
         .map(|(key, account)| {
             Ok((
                 key,
-                OpenOrdersAccount::try_deserialize(&mut (&account.data as &[u8]))?,
+                OpenOrdersAccount::try_deserialize_from_slice(&mut (&account.data as &[u8]))?,
             ))
         })
         .collect()
-- 
2.43.0

