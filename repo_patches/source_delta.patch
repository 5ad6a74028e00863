From ba2bffd8c614783055f04bab4bd6f0c25627b436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 01/13] fix: enforce the harvest period history limit in
 production builds

The guard which stops an admin from rotating out a harvest period that farmers
may still be owed emissions of was compiled only with a "prod" feature, which
does not exist. Builds are production builds unless the "dev" feature is on.
---
 programs/farming/src/models/farm.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/programs/farming/src/models/farm.rs b/programs/farming/src/models/farm.rs
index 1a0fd2a..dc3cd6f 100644
--- a/programs/farming/src/models/farm.rs
+++ b/programs/farming/src/models/farm.rs
@@ -272,8 +272,10 @@ impl Farm {
         // already initialized as a fixed number length array of default
         // elements so unwrap `.last()` is safe
         let oldest_period = harvest.periods.last().unwrap();
-        let is_oldest_period_initialized = if cfg!(any(feature = "prod", test))
-        {
+        let is_oldest_period_initialized = if cfg!(any(
+            not(feature = "dev"),
+            test
+        )) {
             // if the oldest period is within the current snapshot history,
             // we are unable to update its value, the admin already passed the
             // allowed max number of possible configuration updates
-- 
2.43.0


From 3ba5742a9a68799d519dfe3cc4b84ab59321bb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:15 +0000
Subject: [PATCH 02/13] fix: never credit a slot twice when vested tokens
 become staked

Harvest is calculated including the current slot, so the next slot to calculate
from can already be past the start of the snapshot which ends the vesting
period. Moving it back to the start of that snapshot credited the slots between
again.
---
 programs/farming/src/models/farmer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/programs/farming/src/models/farmer.rs b/programs/farming/src/models/farmer.rs
index de065ab..fa1a6ff 100644
--- a/programs/farming/src/models/farmer.rs
+++ b/programs/farming/src/models/farmer.rs
@@ -165,8 +165,12 @@ impl Farmer {
                 )?;
                 self.set_harvests(farmer_harvests)?;
                 // and take a note that we calculated harvest until this
-                // point
-                self.calculate_next_harvest_from = snapshot.started_at;
+                // point, unless it has already been calculated further, in
+                // which case those slots must not be counted again
+                self.calculate_next_harvest_from = cmp::max(
+                    self.calculate_next_harvest_from,
+                    snapshot.started_at,
+                );
 
                 // mark funds which are beyond vesting period as staked
                 self.staked.amount = self
-- 
2.43.0


From f4800dda8cc2cb9cfb056e7c1bb7713fae28201f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:15 +0000
Subject: [PATCH 03/13] fix: end the vesting period when the snapshot history
 was overwritten

A farmer who did not interact with the program for a whole snapshot history has
all snapshots start after their vested at slot. No snapshot was found in this
case and the tokens stayed vested, earning nothing, until deposited again.
---
 programs/farming/src/models/farm.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/programs/farming/src/models/farm.rs b/programs/farming/src/models/farm.rs
index dc3cd6f..8ba5179 100644
--- a/programs/farming/src/models/farm.rs
+++ b/programs/farming/src/models/farm.rs
@@ -314,6 +314,8 @@ impl Farm {
         self.snapshots.ring_buffer[self.oldest_snapshot_index()]
     }
 
+    /// The earliest snapshot in the history which started after given slot. If
+    /// the history has been overwritten since, that's the oldest one we have.
     pub fn first_snapshot_after(&self, slot: Slot) -> Option<Snapshot> {
         if self.latest_snapshot().started_at <= slot {
             // optimization for calculation in open window
@@ -337,12 +339,15 @@ impl Farm {
             .skip(inverted_tip)
             .take(consts::SNAPSHOTS_LEN)
             .find(|(_, s)| s.started_at <= slot)
-            .map(|(index, _)| index)?;
+            .map(|(index, _)| index);
 
-        Some(if pos == consts::SNAPSHOTS_LEN - 1 {
-            self.snapshots.ring_buffer[0]
-        } else {
-            self.snapshots.ring_buffer[pos + 1]
+        Some(match pos {
+            Some(pos) if pos == consts::SNAPSHOTS_LEN - 1 => {
+                self.snapshots.ring_buffer[0]
+            }
+            Some(pos) => self.snapshots.ring_buffer[pos + 1],
+            // all snapshots started after the slot
+            None => self.oldest_snapshot(),
         })
     }
 
-- 
2.43.0


From c5b152369e7058a79efa57d1e110d75798475173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:15 +0000
Subject: [PATCH 04/13] fix: update the target farmer before compounding across
 farms

Compounding sets the vested at slot of the target farmer. Vested tokens which
already outlived the vesting period were not moved to staked first, therefore
regular compounding across farms kept all vested tokens from ever earning.
---
 programs/farming/src/endpoints/compound_across_farms.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/programs/farming/src/endpoints/compound_across_farms.rs b/programs/farming/src/endpoints/compound_across_farms.rs
index 3c3e13c..1da1827 100644
--- a/programs/farming/src/endpoints/compound_across_farms.rs
+++ b/programs/farming/src/endpoints/compound_across_farms.rs
@@ -100,6 +100,11 @@ pub fn handle(ctx: Context<CompoundAcrossFarms>) -> Result<()> {
     let compound_tokens = accounts
         .source_farmer
         .claim_harvest(target_farm.stake_mint)?;
+    // the vesting period starts over with the new tokens, account for those
+    // which are beyond it already
+    accounts
+        .target_farmer
+        .check_vested_period_and_update_harvest(&target_farm, current_slot)?;
     accounts
         .target_farmer
         .add_to_vested(current_slot, compound_tokens)?;
-- 
2.43.0


From bb69b88034e04bcdb55e917b5b1720055620c2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:45 +0000
Subject: [PATCH 05/13] fix: give out LP tokens for the reserve deposited to
 the least

Deposited amounts are rounded up, so their ratios to the reserves differ. The
LP tokens were computed from the first reserve alone: rounding in its favour
took from the other liquidity providers.
---
 programs/amm/src/models/pool.rs | 37 ++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/programs/amm/src/models/pool.rs b/programs/amm/src/models/pool.rs
index d9d5cf8..8b59219 100644
--- a/programs/amm/src/models/pool.rs
+++ b/programs/amm/src/models/pool.rs
@@ -458,6 +458,9 @@ impl Pool {
     /// token in the pool x1, we multiple the deposit delta_x1 with the amount
     /// of lp tokens in supply, and then divide the by the current reserve
     /// amount x1.
+    ///
+    /// Since deposits are rounded to whole tokens, the ratios correspond only
+    /// roughly. We use the token which yields the least.
     fn get_eligible_lp_tokens(
         &self,
         tokens_deposited: &BTreeMap<Pubkey, TokenAmount>,
@@ -466,20 +469,30 @@ impl Pool {
         debug_assert_ne!(lp_mint_supply, TokenAmount::new(0));
         debug_assert_eq!(tokens_deposited.len(), self.dimension as usize);
 
-        let any_reserve = self.reserves[0];
-        let reserve_deposit = tokens_deposited
-            .get(&any_reserve.mint)
+        // the deposited amounts are rounded, therefore the ratios can be
+        // slightly different for each reserve and only the lowest one doesn't
+        // take from the other liquidity providers
+        let tokens = self
+            .reserves()
+            .iter()
+            .map(|reserve| {
+                let reserve_deposit = tokens_deposited
+                    .get(&reserve.mint)
+                    .ok_or(AmmError::InvariantViolation)?;
+
+                try_mul_div(
+                    Decimal::from(lp_mint_supply.amount),
+                    Decimal::from(reserve_deposit.amount),
+                    Decimal::from(reserve.tokens.amount),
+                )?
+                .try_floor()
+                .map(TokenAmount::new)
+            })
+            .collect::<Result<Vec<_>>>()?
+            .into_iter()
+            .min()
             .ok_or(AmmError::InvariantViolation)?;
 
-        let tokens = TokenAmount::new(
-            try_mul_div(
-                Decimal::from(lp_mint_supply.amount),
-                Decimal::from(reserve_deposit.amount),
-                Decimal::from(any_reserve.tokens.amount),
-            )?
-            .try_floor()?,
-        );
-
         Ok(if tokens.amount == 0 {
             None
         } else {
-- 
2.43.0


From 3cd9d105d0f00b9c9efd8ab9551250e8e8a8ce30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:14 +0000
Subject: [PATCH 06/13] fix: never deposit more than the given maximum

The inverted deposit ratio is rounded down, so dividing by it could exceed the
maximum a user set for a reserve, by one token or many.
---
 programs/amm/src/models/pool.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/programs/amm/src/models/pool.rs b/programs/amm/src/models/pool.rs
index 8b59219..831d29b 100644
--- a/programs/amm/src/models/pool.rs
+++ b/programs/amm/src/models/pool.rs
@@ -251,8 +251,20 @@ impl Pool {
                             // we ceil to prevent deposit of 0 tokens
                             .try_ceil()?
                     };
+                    // the inverted ratio is rounded down, therefore dividing
+                    // by it can get us above what the user is willing to
+                    // deposit
+                    let max_amount = max_tokens
+                        .get(&mint)
+                        .ok_or(AmmError::InvariantViolation)?
+                        .amount;
 
-                    Ok((mint, TokenAmount { amount }))
+                    Ok((
+                        mint,
+                        TokenAmount {
+                            amount: amount.min(max_amount),
+                        },
+                    ))
                 })
                 .collect::<Result<BTreeMap<Pubkey, TokenAmount>>>()?;
 
-- 
2.43.0


From ffca62db7b61e2d50c7c34f836cc805c40e9583a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:16 +0000
Subject: [PATCH 07/13] fix: compute the invariant of a stable pool created
 with filled vaults

It was left at zero until the next deposit or redemption, so that the first
swap could buy almost the whole reserve for next to nothing.
---
 programs/amm/src/endpoints/create_pool.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/programs/amm/src/endpoints/create_pool.rs b/programs/amm/src/endpoints/create_pool.rs
index 3bdadb9..dcb34a6 100644
--- a/programs/amm/src/endpoints/create_pool.rs
+++ b/programs/amm/src/endpoints/create_pool.rs
@@ -126,5 +126,10 @@ pub fn handle(ctx: Context<CreatePool>, amplifier: u64) -> Result<()> {
     accs.pool.dimension = mints.len() as u64;
     accs.pool.program_toll_wallet = accs.program_toll_wallet.key();
 
+    // the vaults can already hold tokens
+    //
+    // no-op if const prod
+    accs.pool.update_curve_invariant()?;
+
     Ok(())
 }
-- 
2.43.0


From 9cacc952ef03d183473c97c30a365ce596e813bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:55 +0000
Subject: [PATCH 08/13] fix: put a discount for a user whose discount address
 was sent lamports

Anybody can send lamports to the address, after which the system program
refuses to create an account there, so that the user could never be given a
discount.
---
 programs/amm/src/endpoints/put_discount.rs | 68 +++++++++++++++++++---
 1 file changed, 61 insertions(+), 7 deletions(-)

diff --git a/programs/amm/src/endpoints/put_discount.rs b/programs/amm/src/endpoints/put_discount.rs
index d5f9bb8..bce1399 100644
--- a/programs/amm/src/endpoints/put_discount.rs
+++ b/programs/amm/src/endpoints/put_discount.rs
@@ -76,13 +76,36 @@ pub fn handle(
             &[*ctx.bumps.get("discount").unwrap()],
         ];
         let rent = Rent::get()?.minimum_balance(Discount::space());
-        system_program::create_account(
-            accs.as_create_discount_account_context()
-                .with_signer(&[&pda_seeds[..]]),
-            rent,
-            Discount::space() as u64,
-            ctx.program_id,
-        )?;
+        let lamports = accs.discount.lamports();
+        if lamports == 0 {
+            system_program::create_account(
+                accs.as_create_discount_account_context()
+                    .with_signer(&[&pda_seeds[..]]),
+                rent,
+                Discount::space() as u64,
+                ctx.program_id,
+            )?;
+        } else {
+            // Anyone can send lamports to the PDA, in which case the system
+            // program refuses to create the account. As `#[account(init)]`
+            // does, we fund the rest of the rent and claim the account.
+            if lamports < rent {
+                system_program::transfer(
+                    accs.as_fund_discount_account_context(),
+                    rent - lamports,
+                )?;
+            }
+            system_program::allocate(
+                accs.as_allocate_discount_account_context()
+                    .with_signer(&[&pda_seeds[..]]),
+                Discount::space() as u64,
+            )?;
+            system_program::assign(
+                accs.as_assign_discount_account_context()
+                    .with_signer(&[&pda_seeds[..]]),
+                ctx.program_id,
+            )?;
+        }
     }
 
     // overwrites the data in the discount account
@@ -108,4 +131,35 @@ impl<'info> PutDiscount<'info> {
         let cpi_program = self.system_program.to_account_info();
         CpiContext::new(cpi_program, cpi_accounts)
     }
+
+    fn as_fund_discount_account_context(
+        &self,
+    ) -> CpiContext<'_, '_, '_, 'info, system_program::Transfer<'info>> {
+        let cpi_accounts = system_program::Transfer {
+            from: self.authority.to_account_info(),
+            to: self.discount.to_account_info(),
+        };
+        let cpi_program = self.system_program.to_account_info();
+        CpiContext::new(cpi_program, cpi_accounts)
+    }
+
+    fn as_allocate_discount_account_context(
+        &self,
+    ) -> CpiContext<'_, '_, '_, 'info, system_program::Allocate<'info>> {
+        let cpi_accounts = system_program::Allocate {
+            account_to_allocate: self.discount.to_account_info(),
+        };
+        let cpi_program = self.system_program.to_account_info();
+        CpiContext::new(cpi_program, cpi_accounts)
+    }
+
+    fn as_assign_discount_account_context(
+        &self,
+    ) -> CpiContext<'_, '_, '_, 'info, system_program::Assign<'info>> {
+        let cpi_accounts = system_program::Assign {
+            account_to_assign: self.discount.to_account_info(),
+        };
+        let cpi_program = self.system_program.to_account_info();
+        CpiContext::new(cpi_program, cpi_accounts)
+    }
 }
-- 
2.43.0


From 6c51c257113d1e8bad6d3f79d8975f8b020d95ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:34 +0000
Subject: [PATCH 09/13] fix: accept an invariant which is as precise as it can
 get

Close to the root the rounded terms of the polynomial can add up to nothing or
less. That was treated as a broken assumption or an overflow, so that deposits,
redemptions and swaps of even perfectly balanced stable pools were refused.
---
 .../amm/src/math/stable_curve_invariant.rs    | 54 ++++++++++---------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/programs/amm/src/math/stable_curve_invariant.rs b/programs/amm/src/math/stable_curve_invariant.rs
index 54b8686..978b663 100644
--- a/programs/amm/src/math/stable_curve_invariant.rs
+++ b/programs/amm/src/math/stable_curve_invariant.rs
@@ -133,30 +133,16 @@ impl StableCurveInvariant {
             // converges, we only need to check that (prev_iter - next_iter) <=
             // adm_err. Given this assumption, it is impossible that prev_val <
             // new_val and the only case where equality holds is when
-            // prev_val is a precise root of the polynomial.
-            // Notice also that if x is a root of the stable polynomial,
-            // applying Newton method to it will result in getting x again,
-            // and the reciprocal statement holds true, so it is an equivalence.
+            // prev_val is a root of the polynomial, as precisely as we can
+            // represent it.
             // Thus, the following checks are sufficient to guarantee
             // full logic coverage.
-            if prev_val <= new_val {
-                let is_val_root_stable_poly = self
-                    .get_stable_swap_polynomial(&prev_val)?
-                    == Decimal::zero();
-
-                if is_val_root_stable_poly {
-                    return prev_val.try_mul(self.scl_down_coef);
-                } else {
-                    // in this case, prev_val is not a root of the polynomial,
-                    // and therefore having prev_val <=
-                    // new_val would violate our
-                    // mathematical assumptions
-                    msg!(
-                        "Invalid mathematical assumption: \
-                        previous value cannot be less or equal to new value"
-                    );
-                    return Err(error!(AmmError::InvariantViolation));
-                }
+            if prev_val < new_val {
+                msg!(
+                    "Invalid mathematical assumption: \
+                    previous value cannot be less than new value"
+                );
+                return Err(error!(AmmError::InvariantViolation));
             }
 
             // assuming that prev_val >= new_val, we just need to check that
@@ -173,8 +159,16 @@ impl StableCurveInvariant {
         &self,
         initial_guess: &Decimal,
     ) -> Result<Decimal> {
+        let positive_terms =
+            self.get_stable_swap_polynomial_positive_terms(initial_guess)?;
+        // The terms of the polynomial are rounded. Close to the root that can
+        // make it negative, in which case we cannot get any closer.
+        if positive_terms <= self.polynomial_third_term {
+            return Ok(*initial_guess);
+        }
+
         let stable_swap_poly =
-            self.get_stable_swap_polynomial(initial_guess)?;
+            positive_terms.try_sub(self.polynomial_third_term)?;
         let derivative_stable_swap_poly =
             self.get_derivate_stable_swap_polynomial(initial_guess)?;
 
@@ -183,15 +177,23 @@ impl StableCurveInvariant {
     }
 
     // Stable swap polynomial to be found in README.md under AMM - Equations
+    #[cfg(test)]
     fn get_stable_swap_polynomial(&self, val: &Decimal) -> Result<Decimal> {
         // D^(n+1) + D(An^n -1)\prod_i x_i n^n + A(n^n)^2\sum_i x_i \prod_i x_i
+        self.get_stable_swap_polynomial_positive_terms(val)?
+            .try_sub(self.polynomial_third_term)
+    }
+
+    // D^(n+1) + D(An^n -1)\prod_i x_i n^n
+    fn get_stable_swap_polynomial_positive_terms(
+        &self,
+        val: &Decimal,
+    ) -> Result<Decimal> {
         let first_term = val.try_pow(self.exponent + 1)?;
 
         let second_term = val.try_mul(self.first_order_coeff)?;
 
-        first_term
-            .try_add(second_term)?
-            .try_sub(self.polynomial_third_term)
+        first_term.try_add(second_term)
     }
 
     // Derivative of stable swap polynomial to be found in README.md under AMM -
-- 
2.43.0


From 52302f6fa83b89d7c614febef1aaf4002057ea1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:41 +0000
Subject: [PATCH 10/13] fix: approximate the invariant of a stable pool to half
 a token

---
 programs/amm/src/math/stable_curve_invariant.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/programs/amm/src/math/stable_curve_invariant.rs b/programs/amm/src/math/stable_curve_invariant.rs
index 978b663..c391961 100644
--- a/programs/amm/src/math/stable_curve_invariant.rs
+++ b/programs/amm/src/math/stable_curve_invariant.rs
@@ -112,8 +112,11 @@ impl StableCurveInvariant {
     fn compute(self) -> Result<Decimal> {
         // acts as a threshold for the difference between successive
         // approximations
-        let admissible_error: Decimal =
-            Decimal::from(1u64).try_div(Decimal::from(2u64)).unwrap();
+        //
+        // half a token, scaled down as the approximations are
+        let admissible_error: Decimal = Decimal::from(1u64)
+            .try_div(Decimal::from(2u64))?
+            .try_div(self.scl_down_coef)?;
 
         // our initial guess is the scaled down sum of token reserve balances
         let mut prev_val = self.initial_guess;
-- 
2.43.0


From d9396e18b6f29e924c90b7e848f5aa9e73c06349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:20 +0000
Subject: [PATCH 11/13] fix: refuse several limits for the same mint

A deposit or redemption with more than one limit for a mint took only the
last one into account and ignored the others.
---
 programs/amm/src/endpoints/deposit_liquidity.rs | 5 +++++
 programs/amm/src/endpoints/redeem_liquidity.rs  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/programs/amm/src/endpoints/deposit_liquidity.rs b/programs/amm/src/endpoints/deposit_liquidity.rs
index 22de3c0..cb58a1e 100644
--- a/programs/amm/src/endpoints/deposit_liquidity.rs
+++ b/programs/amm/src/endpoints/deposit_liquidity.rs
@@ -96,11 +96,16 @@ pub fn handle<'info>(
         ))));
     }
 
+    let limits_count = max_amount_tokens.len();
     // convert max_amount_tokens to BTreeMap (to facilitate logic)
     let max_amount_tokens = max_amount_tokens
         .into_iter()
         .map(|h| (h.mint, h.tokens))
         .collect::<BTreeMap<Pubkey, TokenAmount>>();
+    // of several limits for the same mint only one would be honoured
+    if max_amount_tokens.len() != limits_count {
+        return Err(error!(AmmError::InvalidTokenMints));
+    }
 
     // check that max_amount_tokens have the correct mint pubkeys
     accs.pool.check_amount_tokens_is_valid(&max_amount_tokens)?;
diff --git a/programs/amm/src/endpoints/redeem_liquidity.rs b/programs/amm/src/endpoints/redeem_liquidity.rs
index faed829..af28bef 100644
--- a/programs/amm/src/endpoints/redeem_liquidity.rs
+++ b/programs/amm/src/endpoints/redeem_liquidity.rs
@@ -108,11 +108,16 @@ pub fn handle<'info>(
         ))));
     }
 
+    let limits_count = min_amount_tokens.len();
     // convert min_amount_tokens to BTreeMap (to facilitate logic)
     let min_amount_tokens = min_amount_tokens
         .into_iter()
         .map(|h| (h.mint, h.tokens))
         .collect::<BTreeMap<Pubkey, TokenAmount>>();
+    // of several limits for the same mint only one would be honoured
+    if min_amount_tokens.len() != limits_count {
+        return Err(error!(AmmError::InvalidTokenMints));
+    }
 
     // check that min_amount_tokens have the correct mint pubkeys
     accs.pool.check_amount_tokens_is_valid(&min_amount_tokens)?;
-- 
2.43.0


From 7d83094612dc0e9e90bfaa0bbec9111064340b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:52 +0000
Subject: [PATCH 12/13] fix: swap in constant product pools of large balances

The product of all balances overflows a decimal from 6.2e39 on. For
instance, a pool of four tokens of 10^10 units each could not swap.
---
 programs/amm/src/models/pool.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/programs/amm/src/models/pool.rs b/programs/amm/src/models/pool.rs
index 831d29b..df832e8 100644
--- a/programs/amm/src/models/pool.rs
+++ b/programs/amm/src/models/pool.rs
@@ -657,17 +657,23 @@ impl Pool {
             })
             .collect();
 
-        let product = fold_product(&sold_or_neutral_token_balances_after_swap)?;
-
         let bought_token_balance_after_swap = match self.curve {
             Curve::ConstProd => {
-                let tokens_deposits_before_swap: Vec<Decimal> = reserves
-                    .values()
-                    .map(|v| Decimal::from(v.amount))
-                    .collect();
-
-                let k = fold_product(&tokens_deposits_before_swap)?;
-                k.try_div(product)?
+                // The product of all balances divided by the product of the
+                // sold and neutral ones after the swap. All the balances can
+                // be too much for one product, so we multiply and divide token
+                // by token. Balances of neutral tokens cancel out.
+                reserves
+                    .iter()
+                    .filter(|(mint, _)| **mint != buy_mint)
+                    .map(|(_, tokens)| Decimal::from(tokens.amount))
+                    .zip(sold_or_neutral_token_balances_after_swap)
+                    .try_fold(
+                        Decimal::from(reserves[&buy_mint].amount),
+                        |balance, (before, after)| {
+                            balance.try_mul(before)?.try_div(after)
+                        },
+                    )?
             }
             Curve::Stable {
                 amplifier,
@@ -681,6 +687,9 @@ impl Pool {
                 // for the base mint
                 let sum = fold_sum(&sold_or_neutral_token_balances_after_swap)?;
 
+                let product =
+                    fold_product(&sold_or_neutral_token_balances_after_swap)?;
+
                 get_buy_reserve_balance_after_swap(
                     num_reserves,
                     &amp,
-- 
2.43.0


From f34cce79bac222db1c78c4e31dd198fc3d344381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:52 +0000
Subject: [PATCH 13/13] fix: swap in stable pools of large balances

The product of the balances other than the bought one overflows a
decimal from 6.2e39 on, and so does the coefficient it is divided by.
For instance, a pool of four tokens of 10^15 units each could not swap.
---
 programs/amm/src/math/helpers.rs |  8 --------
 programs/amm/src/models/pool.rs  | 22 +++++++++++++++++++---
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/programs/amm/src/math/helpers.rs b/programs/amm/src/math/helpers.rs
index 5c5b8ae..e1bffae 100644
--- a/programs/amm/src/math/helpers.rs
+++ b/programs/amm/src/math/helpers.rs
@@ -1,13 +1,5 @@
 use crate::prelude::*;
 
-pub fn fold_product(values: &[Decimal]) -> Result<Decimal> {
-    let result = values
-        .iter()
-        .try_fold(Decimal::one(), |acc, el| acc.try_mul(*el))?;
-
-    Ok(result)
-}
-
 pub fn fold_sum(values: &[Decimal]) -> Result<Decimal> {
     let result = values
         .iter()
diff --git a/programs/amm/src/models/pool.rs b/programs/amm/src/models/pool.rs
index df832e8..5b267da 100644
--- a/programs/amm/src/models/pool.rs
+++ b/programs/amm/src/models/pool.rs
@@ -687,16 +687,32 @@ impl Pool {
                 // for the base mint
                 let sum = fold_sum(&sold_or_neutral_token_balances_after_swap)?;
 
-                let product =
-                    fold_product(&sold_or_neutral_token_balances_after_swap)?;
+                // the product of the balances can be too much for a decimal, so
+                // we scale everything down beforehand
+                let ScaleDownOutput {
+                    scale_down: d,
+                    exponent,
+                } = scale_down_value(d)?;
+                let scl_down_coef =
+                    Decimal::from(1000_u64).try_pow(exponent as u64)?;
+
+                // starts with the largest to lose the least precision
+                let mut balances = sold_or_neutral_token_balances_after_swap;
+                balances.sort_by(|a, b| b.cmp(a));
+                let product = balances
+                    .into_iter()
+                    .try_fold(Decimal::one(), |acc, balance| {
+                        acc.try_mul(balance)?.try_div(scl_down_coef)
+                    })?;
 
                 get_buy_reserve_balance_after_swap(
                     num_reserves,
                     &amp,
                     &d,
-                    sum,
+                    sum.try_div(scl_down_coef)?,
                     product,
                 )?
+                .try_mul(scl_down_coef)?
             }
         };
 
-- 
2.43.0

