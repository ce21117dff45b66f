// -*- mode: Bluespec; -*-
// What the contract announces about an operation it has carried out: the attributes of its event, on which
// indexers and wallets rely.
module events {
  import dex.* from "./dex"
  export dex.*

  type Event = { text: str -> str, nums: str -> int }
  pure def said(what: str, text: str -> str, nums: str -> int): Event = { text: text.put("action", what), nums: nums }

  // a position opened or closed: whose, how much, between which ticks, at which price
  pure def aboutPosition(what: str, who: Acct, lo: int, up: int, liq: int, sp: int): Event =
    said(what, Map("address" -> who), Map("lower_tick" -> lo, "upper_tick" -> up, "liquidity" -> liq, "current_sqrt_price" -> sp))
  pure def closed(st: State, owner: Acct, idx: int): Event =
    val p = st.pos.get(owner)[idx]
    aboutPosition("remove_position", owner, p.lo, p.up, p.liq, st.pools.get(p.key).sp)

  // the operation was carried out in st and gave the amounts `out`
  pure def announced(st: State, op: Op, out: List[int]): Event =
    match op {
      | CreatePool(o) => said("create_pool", Map(), Map())
      | AddFeeTier(o) => said("add_fee_tier", Map(), Map())
      | RemoveFeeTier(o) => said("remove_fee_tier", Map(), Map())
      | ChangeAdmin(o) => said("change_admin", Map("new_admin" -> o.to), Map())
      | ChangeProtocolFee(o) => said("change_protocol_fee", Map(), Map())
      | ChangeFeeReceiver(o) => said("change_fee_receiver", Map(), Map())
      | WithdrawProtocolFee(o) => said("withdraw_protocol_fee", Map(), Map())
      | CreatePosition(o) => aboutPosition("create_position", o.by, o.lo, o.up, o.liq, st.pools.get(o.key).sp)
      | RemovePosition(o) => closed(st, o.by, o.idx)
      | Burn(o) => closed(st, o.owner, o.idx)
      | ClaimFee(o) => said("claim_fee", Map(), Map("amount_x" -> out[0], "amount_y" -> out[1]))
      | TransferPosition(o) => said("transfer_position", Map(), Map())
      | TransferNft(o) => said("transfer_nft", Map("sender" -> o.by, "recipient" -> o.to), Map())
      | SendNft(o) => said("send_nft", Map("sender" -> o.by, "recipient" -> o.to), Map())
      | Approve(o) => said("approve", Map("sender" -> o.by, "spender" -> o.spender), Map())
      | Revoke(o) => said("revoke", Map("sender" -> o.by, "spender" -> o.spender), Map())
      | ApproveAll(o) => said("approve_all", Map("sender" -> o.by, "operator" -> o.operator), Map())
      | RevokeAll(o) => said("revoke_all", Map("sender" -> o.by, "operator" -> o.operator), Map())
      | Swap(o) => said("swap", Map(), Map("amount_in" -> out[0], "amount_out" -> out[1]))
      | SwapRoute(o) => said("swap_route", Map(), Map("amount_out" -> out[0]))
      | Migrate(o) => { text: Map(), nums: Map() }
      | Advance(o) => { text: Map(), nums: Map() }
    }
}
