From 725ba88de9f326153f27d6a94d8972b53a24641a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:00 +0000
Subject: [PATCH 01/10] fix: routing ISM answers VerifyInfo with the routed
 module's info

The query was sent without the ism wrapper and parsed as a VerifyResponse,
so it failed for every module.
---
 contracts/isms/routing/src/contract.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/contracts/isms/routing/src/contract.rs b/contracts/isms/routing/src/contract.rs
index bba8f9a..e0b4d41 100644
--- a/contracts/isms/routing/src/contract.rs
+++ b/contracts/isms/routing/src/contract.rs
@@ -7,7 +7,7 @@ use cw2::set_contract_version;
 use hpl_interface::{
     ism::{
         routing::{ExecuteMsg, InstantiateMsg, QueryMsg, RouteResponse, RoutingIsmQueryMsg},
-        IsmQueryMsg, ModuleTypeResponse, VerifyResponse,
+        IsmQueryMsg, ModuleTypeResponse, VerifyInfoResponse, VerifyResponse,
     },
     types::Message,
 };
@@ -129,11 +129,11 @@ pub fn query(deps: Deps, env: Env, msg: QueryMsg) -> Result<QueryResponse, Contr
                     .may_load(deps.storage, decoded.origin_domain)?
                     .ok_or(ContractError::RouteNotFound {})?;
 
-                let verify_resp: VerifyResponse = deps
+                let verify_info_resp: VerifyInfoResponse = deps
                     .querier
-                    .query_wasm_smart(ism, &IsmQueryMsg::VerifyInfo { message })?;
+                    .query_wasm_smart(ism, &IsmQueryMsg::VerifyInfo { message }.wrap())?;
 
-                Ok(to_json_binary(&verify_resp)?)
+                Ok(to_json_binary(&verify_info_resp)?)
             }
         },
         QueryMsg::RoutingIsm(msg) => match msg {
-- 
2.43.0


From 9021e84df4b1d007f151b0247fdfabfe6181be7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:00 +0000
Subject: [PATCH 02/10] fix: aggregate ISM validates the threshold on
 instantiation

SetIsms rejects a zero or unreachable threshold but instantiate stored it;
with threshold 0 a message was accepted although no module verified it.
---
 contracts/isms/aggregate/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/contracts/isms/aggregate/src/lib.rs b/contracts/isms/aggregate/src/lib.rs
index 0d39848..a30be98 100644
--- a/contracts/isms/aggregate/src/lib.rs
+++ b/contracts/isms/aggregate/src/lib.rs
@@ -42,6 +42,15 @@ pub fn instantiate(
 ) -> Result<Response, ContractError> {
     set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;
 
+    ensure!(
+        msg.threshold > 0,
+        ContractError::InvalidThreshold("threshold must not be zero".to_string())
+    );
+    ensure!(
+        msg.isms.len() >= msg.threshold as usize,
+        ContractError::InvalidThreshold("threshold should be less than ism count".to_string())
+    );
+
     let owner = deps.api.addr_validate(&msg.owner)?;
     let isms = msg
         .isms
-- 
2.43.0


From eed37a87747ccc21a2ffbc2a52ac603fd267b484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:26 +0000
Subject: [PATCH 03/10] fix: IGP metadata refund address with leading zero
 bytes

Sixteen leading zero bytes were cut off before encoding, leaving a 16 (or 4)
byte address and a panic; bech32_encode already strips the 12 byte padding.
---
 packages/interface/src/types/metadata.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/packages/interface/src/types/metadata.rs b/packages/interface/src/types/metadata.rs
index 15b56ab..1a525b0 100644
--- a/packages/interface/src/types/metadata.rs
+++ b/packages/interface/src/types/metadata.rs
@@ -250,18 +250,8 @@ impl IGPMetadata {
             return default;
         }
 
-        let raw_addr = match self
-            .refund_address
-            .to_vec()
-            .iter()
-            .take(16)
-            .all(|&byte| byte == 0)
-        {
-            true => self.refund_address.to_vec()[16..].to_vec(),
-            false => self.refund_address.to_vec(),
-        };
-
-        bech32_encode(hrp, &raw_addr).unwrap()
+        // bech32_encode strips the padding of a 20 byte address
+        bech32_encode(hrp, &self.refund_address).unwrap()
     }
 }
 
-- 
2.43.0


From d16f72947a16322085fe89a84f7f6fd806881ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:26 +0000
Subject: [PATCH 04/10] fix: IGP accepts a payment of nothing when nothing was
 quoted

A zero gas price yields an empty quote, but pay_for_gas still insisted on
funds, so a dispatch paying exactly its quote was rejected.
---
 contracts/igps/core/src/execute.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/contracts/igps/core/src/execute.rs b/contracts/igps/core/src/execute.rs
index 1578ab7..7c56d43 100644
--- a/contracts/igps/core/src/execute.rs
+++ b/contracts/igps/core/src/execute.rs
@@ -149,8 +149,12 @@ pub fn pay_for_gas(
     refund_address: String,
 ) -> Result<Response, ContractError> {
     let gas_token = GAS_TOKEN.load(deps.storage)?;
-    let received = Uint256::from(cw_utils::must_pay(&info, &gas_token)?);
     let gas_needed = quote_gas_price(deps.storage, &deps.querier, dest_domain, gas_amount)?;
+    // nothing was quoted, so nothing has to be paid
+    let received = match gas_needed.is_zero() && info.funds.is_empty() {
+        true => Uint256::zero(),
+        false => Uint256::from(cw_utils::must_pay(&info, &gas_token)?),
+    };
     ensure!(
         received >= gas_needed,
         ContractError::InsufficientFunds {
-- 
2.43.0


From 60b03abb098cceb4074f6c95cde9879dc683d379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:26 +0000
Subject: [PATCH 05/10] fix: oracle rejects a zero exchange rate on the single
 setter too

Only the batch setter validated it; a zero rate prices every delivery at zero.
---
 contracts/igps/oracle/src/contract.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/igps/oracle/src/contract.rs b/contracts/igps/oracle/src/contract.rs
index 464a76f..da39bcb 100644
--- a/contracts/igps/oracle/src/contract.rs
+++ b/contracts/igps/oracle/src/contract.rs
@@ -73,6 +73,11 @@ pub fn execute(
                 ContractError::Unauthorized {}
             );
 
+            ensure!(
+                !config.token_exchange_rate.is_zero(),
+                ContractError::invalid_config("exchange rate must be non-zero")
+            );
+
             let domain = config.remote_domain.to_string();
             insert_gas_data(deps.storage, config)?;
 
-- 
2.43.0


From 1cb924d90b48b1c736c205da704cced3de0e76e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 06/10] fix: routing hooks pass the payment on to the routed
 hook

---
 contracts/hooks/routing-custom/src/lib.rs   | 4 ++--
 contracts/hooks/routing-fallback/src/lib.rs | 4 ++--
 contracts/hooks/routing/src/lib.rs          | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/contracts/hooks/routing-custom/src/lib.rs b/contracts/hooks/routing-custom/src/lib.rs
index 1a355a7..32aecd4 100644
--- a/contracts/hooks/routing-custom/src/lib.rs
+++ b/contracts/hooks/routing-custom/src/lib.rs
@@ -284,12 +284,12 @@ fn route(storage: &dyn Storage, message: &HexBinary) -> Result<(Message, Addr),
 
 fn post_dispatch(
     deps: DepsMut,
-    _info: MessageInfo,
+    info: MessageInfo,
     req: PostDispatchMsg,
 ) -> Result<Response, ContractError> {
     let (decoded_msg, routed_hook) = route(deps.storage, &req.message)?;
 
-    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), vec![])?;
+    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), info.funds)?;
 
     Ok(Response::new().add_message(hook_msg).add_event(
         new_event("post_dispatch")
diff --git a/contracts/hooks/routing-fallback/src/lib.rs b/contracts/hooks/routing-fallback/src/lib.rs
index 97ef08f..9e2cc2c 100644
--- a/contracts/hooks/routing-fallback/src/lib.rs
+++ b/contracts/hooks/routing-fallback/src/lib.rs
@@ -126,12 +126,12 @@ fn route(storage: &dyn Storage, message: &HexBinary) -> Result<(Message, Addr),
 
 pub fn post_dispatch(
     deps: DepsMut,
-    _info: MessageInfo,
+    info: MessageInfo,
     req: PostDispatchMsg,
 ) -> Result<Response, ContractError> {
     let (decoded_msg, routed_hook) = route(deps.storage, &req.message)?;
 
-    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), vec![])?;
+    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), info.funds)?;
 
     Ok(Response::new().add_message(hook_msg).add_event(
         new_event("post_dispatch")
diff --git a/contracts/hooks/routing/src/lib.rs b/contracts/hooks/routing/src/lib.rs
index 341c90c..b485cc9 100644
--- a/contracts/hooks/routing/src/lib.rs
+++ b/contracts/hooks/routing/src/lib.rs
@@ -123,12 +123,12 @@ fn route(storage: &dyn Storage, message: &HexBinary) -> Result<(Message, Addr),
 
 fn post_dispatch(
     deps: DepsMut,
-    _info: MessageInfo,
+    info: MessageInfo,
     req: PostDispatchMsg,
 ) -> Result<Response, ContractError> {
     let (decoded_msg, routed_hook) = route(deps.storage, &req.message)?;
 
-    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), vec![])?;
+    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), info.funds)?;
 
     Ok(Response::new().add_message(hook_msg).add_event(
         new_event("post_dispatch")
-- 
2.43.0


From 1307682c2101a9c2e87b24cc91b0d7cce96e1f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:13 +0000
Subject: [PATCH 07/10] fix: fee hook quotes and accepts nothing when its fee
 is zero

---
 contracts/hooks/fee/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/contracts/hooks/fee/src/lib.rs b/contracts/hooks/fee/src/lib.rs
index be2de06..da40db0 100644
--- a/contracts/hooks/fee/src/lib.rs
+++ b/contracts/hooks/fee/src/lib.rs
@@ -113,7 +113,7 @@ pub fn execute(
         },
         ExecuteMsg::PostDispatch(_) => {
             let fee = COIN_FEE.load(deps.storage)?;
-            let supplied = cw_utils::must_pay(&info, &fee.denom)?;
+            let supplied = cw_utils::may_pay(&info, &fee.denom)?;
 
             ensure!(
                 supplied.u128() >= fee.amount.u128(),
@@ -150,7 +150,12 @@ fn get_mailbox(_deps: Deps) -> Result<MailboxResponse, ContractError> {
 
 fn quote_dispatch(deps: Deps) -> Result<QuoteDispatchResponse, ContractError> {
     let fee = COIN_FEE.load(deps.storage)?;
-    Ok(QuoteDispatchResponse { fees: vec![fee] })
+    let fees = match fee.amount.is_zero() {
+        true => vec![],
+        false => vec![fee],
+    };
+
+    Ok(QuoteDispatchResponse { fees })
 }
 
 #[cfg_attr(not(feature = "library"), entry_point)]
-- 
2.43.0


From f553f9d9ef13b9c531994869141164a10e2c2da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:39 +0000
Subject: [PATCH 08/10] fix: warp transfers only to a 32 bytes recipient

---
 contracts/warp/cw20/src/contract.rs   | 3 +++
 contracts/warp/native/src/contract.rs | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/contracts/warp/cw20/src/contract.rs b/contracts/warp/cw20/src/contract.rs
index 503b2a2..a8b1f9b 100644
--- a/contracts/warp/cw20/src/contract.rs
+++ b/contracts/warp/cw20/src/contract.rs
@@ -192,6 +192,9 @@ fn transfer_remote(
     hook: Option<String>,
     metadata: Option<HexBinary>,
 ) -> Result<Response, ContractError> {
+    // the payload carries the recipient as a 32 bytes word
+    ensure_eq!(recipient.len(), 32, ContractError::WrongLength {});
+
     let token = TOKEN.load(deps.storage)?;
     let mode = MODE.load(deps.storage)?;
     let mailbox = MAILBOX.load(deps.storage)?;
diff --git a/contracts/warp/native/src/contract.rs b/contracts/warp/native/src/contract.rs
index ef6c234..46e2f8a 100644
--- a/contracts/warp/native/src/contract.rs
+++ b/contracts/warp/native/src/contract.rs
@@ -205,6 +205,9 @@ fn transfer_remote(
     hook: Option<String>,
     metadata: Option<HexBinary>,
 ) -> Result<Response, ContractError> {
+    // the payload carries the recipient as a 32 bytes word
+    ensure_eq!(recipient.len(), 32, ContractError::WrongLength);
+
     let token = TOKEN.load(deps.storage)?;
     let mode = MODE.load(deps.storage)?;
     let mailbox = MAILBOX.load(deps.storage)?;
-- 
2.43.0


From bd676cd659340562dc3c38d5748c4b8e5de1a9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:31 +0000
Subject: [PATCH 09/10] fix: router lists its domains after a route was removed

---
 packages/router/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/router/src/lib.rs b/packages/router/src/lib.rs
index b11de61..d12d2c5 100644
--- a/packages/router/src/lib.rs
+++ b/packages/router/src/lib.rs
@@ -144,7 +144,7 @@ pub fn get_domains<T>(storage: &dyn Storage) -> StdResult<Vec<u32>>
 where
     T: Serialize + DeserializeOwned + Clone + Eq,
 {
-    get_route_map::<T>()
+    get_route_map::<Option<T>>()
         .keys(storage, None, None, Order::Asc.into())
         .collect()
 }
-- 
2.43.0


From 3e4cab2c70ab060810ae54a5fbfa8b028be96045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:12 +0000
Subject: [PATCH 10/10] fix: mailbox needs a default module or hook only where
 it is used

---
 contracts/core/mailbox/src/execute.rs  | 5 +++--
 contracts/core/mailbox/src/query.rs    | 8 ++++----
 packages/interface/src/core/mailbox.rs | 8 ++++++--
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/contracts/core/mailbox/src/execute.rs b/contracts/core/mailbox/src/execute.rs
index 6d1d7cb..c99cc77 100644
--- a/contracts/core/mailbox/src/execute.rs
+++ b/contracts/core/mailbox/src/execute.rs
@@ -113,7 +113,7 @@ pub fn dispatch(
             .clone()
             .to_msg(MAILBOX_VERSION, nonce, config.local_domain, &info.sender)?;
     let metadata = dispatch_msg.clone().metadata.unwrap_or_default();
-    let hook = dispatch_msg.get_hook_addr(deps.api, config.get_default_hook())?;
+    let hook = dispatch_msg.get_hook_addr(deps.api, || config.get_default_hook())?;
 
     // assert gas received satisfies required gas
     let required_hook = config.get_required_hook();
@@ -181,7 +181,8 @@ pub fn process(
     );
 
     let id = decoded_msg.id();
-    let ism = ism::recipient(&deps.querier, &recipient)?.unwrap_or(config.get_default_ism());
+    let ism = ism::recipient(&deps.querier, &recipient)?
+        .unwrap_or_else(|| config.get_default_ism());
 
     ensure!(
         !DELIVERIES.has(deps.storage, id.to_vec()),
diff --git a/contracts/core/mailbox/src/query.rs b/contracts/core/mailbox/src/query.rs
index e2e0a15..ed70fd9 100644
--- a/contracts/core/mailbox/src/query.rs
+++ b/contracts/core/mailbox/src/query.rs
@@ -68,11 +68,12 @@ pub fn get_recipient_ism(
     deps: Deps,
     recipient: String,
 ) -> Result<RecipientIsmResponse, ContractError> {
-    let default_ism = CONFIG.load(deps.storage)?.get_default_ism();
+    let config = CONFIG.load(deps.storage)?;
 
     let recipient = deps.api.addr_validate(&recipient)?;
 
-    let ism = ism::recipient(&deps.querier, recipient)?.unwrap_or(default_ism);
+    let ism = ism::recipient(&deps.querier, recipient)?
+        .unwrap_or_else(|| config.get_default_ism());
 
     Ok(RecipientIsmResponse { ism: ism.into() })
 }
@@ -99,12 +100,11 @@ pub fn quote_dispatch(
         .clone()
         .to_msg(MAILBOX_VERSION, nonce, config.local_domain, sender)?;
 
-    let default_hook = config.get_default_hook();
     let required_hook = config.get_required_hook();
 
     let base_fee = hook::quote_dispatch(
         &deps.querier,
-        dispatch_msg.get_hook_addr(deps.api, default_hook)?,
+        dispatch_msg.get_hook_addr(deps.api, || config.get_default_hook())?,
         dispatch_msg.metadata.clone().unwrap_or_default(),
         msg.clone(),
     )?
diff --git a/packages/interface/src/core/mailbox.rs b/packages/interface/src/core/mailbox.rs
index edebe0b..20c1b25 100644
--- a/packages/interface/src/core/mailbox.rs
+++ b/packages/interface/src/core/mailbox.rs
@@ -67,13 +67,17 @@ impl DispatchMsg {
         })
     }
 
-    pub fn get_hook_addr(&self, api: &dyn Api, default: Addr) -> StdResult<Addr> {
+    pub fn get_hook_addr(
+        &self,
+        api: &dyn Api,
+        default: impl FnOnce() -> Addr,
+    ) -> StdResult<Addr> {
         Ok(self
             .hook
             .as_ref()
             .map(|v| api.addr_validate(v))
             .transpose()?
-            .unwrap_or(default))
+            .unwrap_or_else(default))
     }
 }
 
-- 
2.43.0

