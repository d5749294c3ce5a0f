From 12fa9f43174fa23bad1df25a23e7625a7a0cda46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:54 +0000
Subject: [PATCH 01/17] fix: warp native: refuse a remote recipient that is not
 32 bytes

---
 contracts/warp/native/src/contract.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/contracts/warp/native/src/contract.rs b/contracts/warp/native/src/contract.rs
index ef6c234..9e0c95f 100644
--- a/contracts/warp/native/src/contract.rs
+++ b/contracts/warp/native/src/contract.rs
@@ -205,6 +205,9 @@ fn transfer_remote(
     hook: Option<String>,
     metadata: Option<HexBinary>,
 ) -> Result<Response, ContractError> {
+    // the recipient takes exactly 32 bytes on the wire
+    ensure!(recipient.len() == 32, ContractError::WrongLength);
+
     let token = TOKEN.load(deps.storage)?;
     let mode = MODE.load(deps.storage)?;
     let mailbox = MAILBOX.load(deps.storage)?;
-- 
2.43.0


From ab5e9d94afd1f44dd6275fe38e0e212c5a619935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:56 +0000
Subject: [PATCH 02/17] fix: warp cw20: refuse a remote recipient that is not
 32 bytes

---
 contracts/warp/cw20/src/contract.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/contracts/warp/cw20/src/contract.rs b/contracts/warp/cw20/src/contract.rs
index 503b2a2..2d48353 100644
--- a/contracts/warp/cw20/src/contract.rs
+++ b/contracts/warp/cw20/src/contract.rs
@@ -1,8 +1,9 @@
 #[cfg(not(feature = "library"))]
 use cosmwasm_std::entry_point;
 use cosmwasm_std::{
-    ensure_eq, to_json_binary, wasm_execute, CosmosMsg, Deps, DepsMut, Empty, Env, HexBinary,
-    MessageInfo, QueryResponse, Reply, Response, StdError, SubMsg, Uint128, Uint256, WasmMsg,
+    ensure, ensure_eq, to_json_binary, wasm_execute, CosmosMsg, Deps, DepsMut, Empty, Env,
+    HexBinary, MessageInfo, QueryResponse, Reply, Response, StdError, SubMsg, Uint128, Uint256,
+    WasmMsg,
 };
 
 use cw20::Cw20ExecuteMsg;
@@ -192,6 +193,9 @@ fn transfer_remote(
     hook: Option<String>,
     metadata: Option<HexBinary>,
 ) -> Result<Response, ContractError> {
+    // the recipient takes exactly 32 bytes on the wire
+    ensure!(recipient.len() == 32, ContractError::WrongLength {});
+
     let token = TOKEN.load(deps.storage)?;
     let mode = MODE.load(deps.storage)?;
     let mailbox = MAILBOX.load(deps.storage)?;
-- 
2.43.0


From 6bc4ea600b22c3e906b9f7a71a0ede30f03c1b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:56 +0000
Subject: [PATCH 03/17] fix: ism aggregate: validate the threshold at
 instantiation

---
 contracts/isms/aggregate/src/lib.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/contracts/isms/aggregate/src/lib.rs b/contracts/isms/aggregate/src/lib.rs
index 0d39848..a30be98 100644
--- a/contracts/isms/aggregate/src/lib.rs
+++ b/contracts/isms/aggregate/src/lib.rs
@@ -42,6 +42,15 @@ pub fn instantiate(
 ) -> Result<Response, ContractError> {
     set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;
 
+    ensure!(
+        msg.threshold > 0,
+        ContractError::InvalidThreshold("threshold must not be zero".to_string())
+    );
+    ensure!(
+        msg.isms.len() >= msg.threshold as usize,
+        ContractError::InvalidThreshold("threshold should be less than ism count".to_string())
+    );
+
     let owner = deps.api.addr_validate(&msg.owner)?;
     let isms = msg
         .isms
-- 
2.43.0


From 1c667590d811249cb64466e931ca7bec8f1d2173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:56 +0000
Subject: [PATCH 04/17] fix: ism routing: forward verify info queries in the
 form modules accept

---
 contracts/isms/routing/src/contract.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/contracts/isms/routing/src/contract.rs b/contracts/isms/routing/src/contract.rs
index bba8f9a..d78af36 100644
--- a/contracts/isms/routing/src/contract.rs
+++ b/contracts/isms/routing/src/contract.rs
@@ -7,7 +7,7 @@ use cw2::set_contract_version;
 use hpl_interface::{
     ism::{
         routing::{ExecuteMsg, InstantiateMsg, QueryMsg, RouteResponse, RoutingIsmQueryMsg},
-        IsmQueryMsg, ModuleTypeResponse, VerifyResponse,
+        IsmQueryMsg, ModuleTypeResponse, VerifyInfoResponse, VerifyResponse,
     },
     types::Message,
 };
@@ -129,11 +129,11 @@ pub fn query(deps: Deps, env: Env, msg: QueryMsg) -> Result<QueryResponse, Contr
                     .may_load(deps.storage, decoded.origin_domain)?
                     .ok_or(ContractError::RouteNotFound {})?;
 
-                let verify_resp: VerifyResponse = deps
+                let verify_info: VerifyInfoResponse = deps
                     .querier
-                    .query_wasm_smart(ism, &IsmQueryMsg::VerifyInfo { message })?;
+                    .query_wasm_smart(ism, &IsmQueryMsg::VerifyInfo { message }.wrap())?;
 
-                Ok(to_json_binary(&verify_resp)?)
+                Ok(to_json_binary(&verify_info)?)
             }
         },
         QueryMsg::RoutingIsm(msg) => match msg {
-- 
2.43.0


From 06f0635fd8f11caee66e2da96dd7312f296af0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:56 +0000
Subject: [PATCH 05/17] fix: igp oracle: refuse a zero exchange rate for a
 single config too

---
 contracts/igps/oracle/src/contract.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/igps/oracle/src/contract.rs b/contracts/igps/oracle/src/contract.rs
index 464a76f..da39bcb 100644
--- a/contracts/igps/oracle/src/contract.rs
+++ b/contracts/igps/oracle/src/contract.rs
@@ -73,6 +73,11 @@ pub fn execute(
                 ContractError::Unauthorized {}
             );
 
+            ensure!(
+                !config.token_exchange_rate.is_zero(),
+                ContractError::invalid_config("exchange rate must be non-zero")
+            );
+
             let domain = config.remote_domain.to_string();
             insert_gas_data(deps.storage, config)?;
 
-- 
2.43.0


From e89873ef2310b78fe5fb472c1587e13d2568a73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:56 +0000
Subject: [PATCH 06/17] fix: routing hooks: pass the attached funds on to the
 routed hook

---
 contracts/hooks/routing-custom/src/lib.rs   | 4 ++--
 contracts/hooks/routing-fallback/src/lib.rs | 4 ++--
 contracts/hooks/routing/src/lib.rs          | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/contracts/hooks/routing-custom/src/lib.rs b/contracts/hooks/routing-custom/src/lib.rs
index 1a355a7..32aecd4 100644
--- a/contracts/hooks/routing-custom/src/lib.rs
+++ b/contracts/hooks/routing-custom/src/lib.rs
@@ -284,12 +284,12 @@ fn route(storage: &dyn Storage, message: &HexBinary) -> Result<(Message, Addr),
 
 fn post_dispatch(
     deps: DepsMut,
-    _info: MessageInfo,
+    info: MessageInfo,
     req: PostDispatchMsg,
 ) -> Result<Response, ContractError> {
     let (decoded_msg, routed_hook) = route(deps.storage, &req.message)?;
 
-    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), vec![])?;
+    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), info.funds)?;
 
     Ok(Response::new().add_message(hook_msg).add_event(
         new_event("post_dispatch")
diff --git a/contracts/hooks/routing-fallback/src/lib.rs b/contracts/hooks/routing-fallback/src/lib.rs
index 97ef08f..9e2cc2c 100644
--- a/contracts/hooks/routing-fallback/src/lib.rs
+++ b/contracts/hooks/routing-fallback/src/lib.rs
@@ -126,12 +126,12 @@ fn route(storage: &dyn Storage, message: &HexBinary) -> Result<(Message, Addr),
 
 pub fn post_dispatch(
     deps: DepsMut,
-    _info: MessageInfo,
+    info: MessageInfo,
     req: PostDispatchMsg,
 ) -> Result<Response, ContractError> {
     let (decoded_msg, routed_hook) = route(deps.storage, &req.message)?;
 
-    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), vec![])?;
+    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), info.funds)?;
 
     Ok(Response::new().add_message(hook_msg).add_event(
         new_event("post_dispatch")
diff --git a/contracts/hooks/routing/src/lib.rs b/contracts/hooks/routing/src/lib.rs
index 341c90c..b485cc9 100644
--- a/contracts/hooks/routing/src/lib.rs
+++ b/contracts/hooks/routing/src/lib.rs
@@ -123,12 +123,12 @@ fn route(storage: &dyn Storage, message: &HexBinary) -> Result<(Message, Addr),
 
 fn post_dispatch(
     deps: DepsMut,
-    _info: MessageInfo,
+    info: MessageInfo,
     req: PostDispatchMsg,
 ) -> Result<Response, ContractError> {
     let (decoded_msg, routed_hook) = route(deps.storage, &req.message)?;
 
-    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), vec![])?;
+    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), info.funds)?;
 
     Ok(Response::new().add_message(hook_msg).add_event(
         new_event("post_dispatch")
-- 
2.43.0


From 17d196f3fdb5d4a962d878b71778d9246c5ed9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:56 +0000
Subject: [PATCH 07/17] fix: igp metadata: no panic on refund addresses with
 leading zeros

---
 packages/interface/src/types/metadata.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/packages/interface/src/types/metadata.rs b/packages/interface/src/types/metadata.rs
index 15b56ab..b716120 100644
--- a/packages/interface/src/types/metadata.rs
+++ b/packages/interface/src/types/metadata.rs
@@ -250,18 +250,8 @@ impl IGPMetadata {
             return default;
         }
 
-        let raw_addr = match self
-            .refund_address
-            .to_vec()
-            .iter()
-            .take(16)
-            .all(|&byte| byte == 0)
-        {
-            true => self.refund_address.to_vec()[16..].to_vec(),
-            false => self.refund_address.to_vec(),
-        };
-
-        bech32_encode(hrp, &raw_addr).unwrap()
+        // a 32 byte address with 12 leading zeros is encoded as a 20 byte one
+        bech32_encode(hrp, self.refund_address.as_slice()).unwrap()
     }
 }
 
-- 
2.43.0


From 8347aa2213f6cc406dc101efb8e68832093bada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:19 +0000
Subject: [PATCH 08/17] fix: igp: accept a dispatch without funds when the
 quote is zero

---
 contracts/igps/core/src/execute.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/contracts/igps/core/src/execute.rs b/contracts/igps/core/src/execute.rs
index 1578ab7..93a432b 100644
--- a/contracts/igps/core/src/execute.rs
+++ b/contracts/igps/core/src/execute.rs
@@ -149,8 +149,12 @@ pub fn pay_for_gas(
     refund_address: String,
 ) -> Result<Response, ContractError> {
     let gas_token = GAS_TOKEN.load(deps.storage)?;
-    let received = Uint256::from(cw_utils::must_pay(&info, &gas_token)?);
     let gas_needed = quote_gas_price(deps.storage, &deps.querier, dest_domain, gas_amount)?;
+    // there is nothing to attach for a quote of zero
+    let received = match gas_needed.is_zero() && info.funds.is_empty() {
+        true => Uint256::zero(),
+        false => Uint256::from(cw_utils::must_pay(&info, &gas_token)?),
+    };
     ensure!(
         received >= gas_needed,
         ContractError::InsufficientFunds {
-- 
2.43.0


From 5558dad104e078299054361552997ba7ff665e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:24 +0000
Subject: [PATCH 09/17] fix: deploy: send the aggregation ISM its threshold

---
 config.example.yaml     | 1 +
 script/deploy/ism.ts    | 1 +
 script/shared/config.ts | 1 +
 3 files changed, 3 insertions(+)

diff --git a/config.example.yaml b/config.example.yaml
index 1ff49de..b43798d 100644
--- a/config.example.yaml
+++ b/config.example.yaml
@@ -85,6 +85,7 @@ deploy:
     # # hpl_ism_aggregate
     # type: "aggregate"
     # owner: <signer>
+    # threshold: 1
     # isms:
     #   - type: "mock"
     #   - type: "multisig"
diff --git a/script/deploy/ism.ts b/script/deploy/ism.ts
index d64453a..aeaf5be 100644
--- a/script/deploy/ism.ts
+++ b/script/deploy/ism.ts
@@ -74,6 +74,7 @@ export async function deployIsm(
       const aggregate = await deployContract(ctx, client, 'hpl_ism_aggregate', {
         owner: ism.owner === '<signer>' ? client.signer : ism.owner,
         isms: aggr.map((v) => v.address),
+        threshold: ism.threshold,
       });
 
       return { ...aggregate, isms: aggr };
diff --git a/script/shared/config.ts b/script/shared/config.ts
index 79bc007..656d75c 100644
--- a/script/shared/config.ts
+++ b/script/shared/config.ts
@@ -28,6 +28,7 @@ export type IsmType =
       type: 'aggregate';
       owner: string;
       isms: IsmType[];
+      threshold: number;
     }
   | {
       type: 'routing';
-- 
2.43.0


From 34d3324ceb95f27972f706cf056bf520a7fea1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:59 +0000
Subject: [PATCH 10/17] fix: igp: describe 128-bit gas amounts in the schema as
 the strings they are

---
 packages/interface/src/igp/core.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/interface/src/igp/core.rs b/packages/interface/src/igp/core.rs
index b71287c..535d223 100644
--- a/packages/interface/src/igp/core.rs
+++ b/packages/interface/src/igp/core.rs
@@ -1,5 +1,5 @@
 use cosmwasm_schema::{cw_serde, QueryResponses};
-use cosmwasm_std::{Addr, HexBinary, Uint256};
+use cosmwasm_std::{Addr, HexBinary, Uint128, Uint256};
 
 use crate::{
     hook::{HookQueryMsg, PostDispatchMsg},
@@ -16,6 +16,7 @@ pub struct InstantiateMsg {
     pub owner: String,
     pub gas_token: String,
     pub beneficiary: String,
+    #[schemars(with = "Uint128")]
     pub default_gas_usage: u128,
 }
 
@@ -52,9 +53,11 @@ pub enum ExecuteMsg {
 
     // base
     SetDefaultGas {
+        #[schemars(with = "Uint128")]
         gas: u128,
     },
     SetGasForDomain {
+        #[schemars(with = "Vec<(u32, Uint128)>")]
         config: Vec<(u32, u128)>,
     },
     UnsetGasForDomain {
@@ -121,11 +124,13 @@ impl IgpQueryMsg {
 
 #[cw_serde]
 pub struct DefaultGasResponse {
+    #[schemars(with = "Uint128")]
     pub gas: u128,
 }
 
 #[cw_serde]
 pub struct GasForDomainResponse {
+    #[schemars(with = "Vec<(u32, Uint128)>")]
     pub gas: Vec<(u32, u128)>,
 }
 
-- 
2.43.0


From c04329f590809bd91f126970c47ad6721020d54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:59 +0000
Subject: [PATCH 11/17] fix: warp native: describe the denomination exponent in
 the schema as the string it is

---
 packages/interface/src/warp/native.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/interface/src/warp/native.rs b/packages/interface/src/warp/native.rs
index 9e82f0b..0f95823 100644
--- a/packages/interface/src/warp/native.rs
+++ b/packages/interface/src/warp/native.rs
@@ -18,6 +18,7 @@ pub struct DenomUnit {
         serialize_with = "as_str::serialize",
         deserialize_with = "as_str::deserialize"
     )]
+    #[schemars(with = "String")]
     pub exponent: u32,
     pub aliases: Vec<String>,
 }
-- 
2.43.0


From 75a7c3ecbdf04c1c8d0b05e3bc31f323eff62d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:12 +0000
Subject: [PATCH 12/17] fix: deploy: record the first route of a routing hook
 or ISM under its domain

---
 script/deploy/hook.ts | 27 +++++++++++++++------------
 script/deploy/ism.ts  |  2 +-
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/script/deploy/hook.ts b/script/deploy/hook.ts
index fba3da4..977f8e7 100644
--- a/script/deploy/hook.ts
+++ b/script/deploy/hook.ts
@@ -48,7 +48,7 @@ const deployRoutingHook = async (
 
   return {
     ...routing,
-    hooks: routes.reduce((acc, v) => ({ [v.domain]: v.route, ...acc })),
+    hooks: routes.reduce((acc, v) => ({ [v.domain]: v.route, ...acc }), {}),
   };
 };
 
@@ -113,16 +113,19 @@ const deployCustomRoutingHook = async (
 
   return {
     ...routing,
-    hooks: routes.reduce((acc, v) => ({
-      [v.domain]: {
-        default: v.route,
-        ...customRoutes
-          .filter((r) => r.dest_domain === v.domain)
-          .map(({ recipient, hook }) => ({ recipient, hook }))
-          .reduce((acc, r) => ({ [r.recipient]: r.hook, ...acc })),
-      },
-      ...acc,
-    })),
+    hooks: routes.reduce(
+      (acc, v) => ({
+        [v.domain]: {
+          default: v.route,
+          ...customRoutes
+            .filter((r) => r.dest_domain === v.domain)
+            .map(({ recipient, hook }) => ({ recipient, hook }))
+            .reduce((acc, r) => ({ [r.recipient]: r.hook, ...acc }), {}),
+        },
+        ...acc,
+      }),
+      {},
+    ),
   };
 };
 
@@ -180,7 +183,7 @@ const deployFallbackRoitingHook = async (
     ...routing,
     hooks: {
       fallback,
-      ...routes.reduce((acc, v) => ({ [v.domain]: v.route, ...acc })),
+      ...routes.reduce((acc, v) => ({ [v.domain]: v.route, ...acc }), {}),
     },
   };
 };
diff --git a/script/deploy/ism.ts b/script/deploy/ism.ts
index aeaf5be..5fc98cf 100644
--- a/script/deploy/ism.ts
+++ b/script/deploy/ism.ts
@@ -25,7 +25,7 @@ const deployRoutingIsm = async (
 
   return {
     ...routing,
-    isms: routes.reduce((acc, v) => ({ [v.domain]: v.route, ...acc })),
+    isms: routes.reduce((acc, v) => ({ [v.domain]: v.route, ...acc }), {}),
   };
 };
 
-- 
2.43.0


From a44b208e2d265ad34d95c1ee67949236a5cb67f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:12 +0000
Subject: [PATCH 13/17] fix: deploy: set the fallback hook even when no route
 is configured

---
 script/deploy/hook.ts | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/script/deploy/hook.ts b/script/deploy/hook.ts
index 977f8e7..320d865 100644
--- a/script/deploy/hook.ts
+++ b/script/deploy/hook.ts
@@ -146,10 +146,6 @@ const deployFallbackRoitingHook = async (
 
   const fallback = await deployHook(networkId, ctx, client, hook.fallback_hook);
 
-  // if no hooks, return empty hooks
-  if (Object.keys(hook.hooks).length === 0)
-    return { ...routing, hooks: { fallback } };
-
   const routes = await Promise.all(
     Object.entries(hook.hooks).map(async ([domain, v]) => ({
       domain: parseInt(domain),
-- 
2.43.0


From 3482ef5f168ea52452e272efbaea8c4442a95326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:12 +0000
Subject: [PATCH 14/17] fix: deploy: register custom hooks even when no default
 route is configured

---
 script/deploy/hook.ts | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/script/deploy/hook.ts b/script/deploy/hook.ts
index 320d865..ce30338 100644
--- a/script/deploy/hook.ts
+++ b/script/deploy/hook.ts
@@ -62,9 +62,6 @@ const deployCustomRoutingHook = async (
     owner: hook.owner === '<signer>' ? client.signer : hook.owner,
   });
 
-  // if no hooks, return empty hooks
-  if (Object.keys(hook.hooks).length === 0) return { ...routing, hooks: {} };
-
   const routes = [];
   for (const [domain, v] of Object.entries(hook.hooks)) {
     routes.push({
@@ -78,7 +75,7 @@ const deployCustomRoutingHook = async (
     recipient: string;
     hook: ContextHook;
   }[] = [];
-  for (const [domain, v] of Object.entries(hook.custom_hooks)) {
+  for (const [domain, v] of Object.entries(hook.custom_hooks || {})) {
     customRoutes.push({
       dest_domain: parseInt(domain),
       recipient: v.recipient,
-- 
2.43.0


From 3ab278c11288bfab37f2b82bbd6c69b62d82f0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:12 +0000
Subject: [PATCH 15/17] fix: deploy: deploy the mock ISM the configuration
 offers

---
 script/deploy/ism.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/script/deploy/ism.ts b/script/deploy/ism.ts
index 5fc98cf..0232d2c 100644
--- a/script/deploy/ism.ts
+++ b/script/deploy/ism.ts
@@ -85,6 +85,11 @@ export async function deployIsm(
       return deployRoutingIsm(ctx, client, ism);
     }
 
+    // deploy mock ism
+    case 'mock': {
+      return deployContract(ctx, client, 'hpl_test_mock_ism', {});
+    }
+
     default: {
       throw new Error('invalid ism type');
     }
-- 
2.43.0


From e7a3d11b64b4183e27da68a1ed4e20582fbe7660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:12 +0000
Subject: [PATCH 16/17] fix: warp create: set the ISM given with --ism

---
 script/commands/warp.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/script/commands/warp.ts b/script/commands/warp.ts
index c99ab80..9cdd57d 100644
--- a/script/commands/warp.ts
+++ b/script/commands/warp.ts
@@ -101,7 +101,7 @@ function checkConfigType<
 
 async function handleCreate(configFile: string, _: object, cmd: Command) {
   type Option = {
-    ismAddress?: `0x{string}`;
+    ism?: string;
   };
 
   const opts: Option = cmd.optsWithGlobals();
@@ -171,12 +171,12 @@ async function handleCreate(configFile: string, _: object, cmd: Command) {
     }
   }
 
-  if (opts.ismAddress) {
-    console.log(`Setting ISM address to ${opts.ismAddress}`);
+  if (opts.ism) {
+    console.log(`Setting ISM address to ${opts.ism}`);
     const response = await executeContract(deps.client, newWarp, {
       connection: {
         set_ism: {
-          ism: opts.ismAddress,
+          ism: opts.ism,
         },
       },
     });
-- 
2.43.0


From a458ef7522331b3a55fb918ea3f1174f16d9ca7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:47 +0000
Subject: [PATCH 17/17] fix: deploy: record the custom hooks of domains without
 a default route

---
 script/deploy/hook.ts | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/script/deploy/hook.ts b/script/deploy/hook.ts
index ce30338..3abcba1 100644
--- a/script/deploy/hook.ts
+++ b/script/deploy/hook.ts
@@ -110,18 +110,15 @@ const deployCustomRoutingHook = async (
 
   return {
     ...routing,
-    hooks: routes.reduce(
-      (acc, v) => ({
-        [v.domain]: {
-          default: v.route,
-          ...customRoutes
-            .filter((r) => r.dest_domain === v.domain)
-            .map(({ recipient, hook }) => ({ recipient, hook }))
-            .reduce((acc, r) => ({ [r.recipient]: r.hook, ...acc }), {}),
-        },
+    hooks: customRoutes.reduce(
+      (acc, r) => ({
         ...acc,
+        [r.dest_domain]: { ...acc[r.dest_domain], [r.recipient]: r.hook },
       }),
-      {},
+      routes.reduce<Record<number, Record<string, ContextHook>>>(
+        (acc, v) => ({ [v.domain]: { default: v.route }, ...acc }),
+        {},
+      ),
     ),
   };
 };
-- 
2.43.0

