// What each property's check listens to.
//   profiles   kinds of histories driven on the real contract (harness/src/gen.rs)
//   state      invariants of spec/props.qnt evaluated on every observed state
//   steps      predicates of spec/props.qnt evaluated on every operation carried out
//   queries    compare the answers of queries as well
//   hears      divergences between implementation and specification that concern the property
//   n          histories: quick, thorough
//   worlds     small worlds (spec/worlds.qnt) explored exhaustively up to some depth
//   big        some histories on large deployments besides
'use strict'
const ok = ops => new RegExp('^(accepted|refused):(' + ops + ')$')
const st = (ops, parts) => new RegExp('^state:(' + ops + '):(' + parts + ')')
const any = '[A-Za-z]+'
const P = {}
const def = (id, o) => { P[id] = { kind: 'histories', state: [], steps: [], queries: false, hears: [], n: [96, 3000], ...o } }

def('C01', { // everybody can leave
  worlds: ['fees', 'ticks', 'coins'], profiles: ['drain', 'mix', 'stack', 'route', 'fees', 'extreme', 'funds', 'liq'], state: ['backed'],
  hears: [/^drain:/, ok('RemovePosition|Burn|WithdrawProtocolFee|ClaimFee')]
})
def('C02', { // no operation makes the contract poorer
  worlds: ['edge', 'ticks', 'fees', 'coins'], profiles: ['mix', 'stack', 'swap', 'liq', 'fees', 'ticks', 'route', 'funds', 'extreme'], steps: ['neverPoorer'], n: [80, 2400]
})
def('C03', { // nothing gets stuck
  worlds: ['edge', 'fees', 'coins'], profiles: ['mix', 'swap', 'liq', 'fees', 'ticks', 'route', 'funds', 'extreme'], steps: ['dustOnly'], n: [80, 2400]
})
def('C04', { // active liquidity
  worlds: ['ticks', 'edge', 'ends'], profiles: ['ticks', 'stack', 'swap', 'liq', 'mix', 'extreme', 'route'], state: ['activeLiquidity'], hears: [st(any, 'pools\\.liq')]
})
def('C05', { // tick records
  worlds: ['ticks', 'fees', 'ends'], profiles: ['ticks', 'stack', 'liq', 'swap', 'extreme', 'mix'], state: ['tickLiquidity', 'tickBitmap'],
  hears: [ok('RemovePosition|Burn'), st(any, 'ticks\\.(lg|lc|sign|ix|sp)|ticks[+-]|bits')]
})
def('C06', { // price and tick
  worlds: ['edge', 'ticks', 'ends'], profiles: ['swap', 'ticks', 'stack', 'extreme', 'mix', 'route', 'liq'], state: ['priceTick'], hears: [st(any, 'pools\\.(sp|tick)')]
})
def('C07', { // swaps trade along the curve
  worlds: ['edge', 'ticks', 'ends'], profiles: ['swap', 'ticks', 'extreme', 'mix', 'fees'], steps: ['reported'],
  hears: [/^out:Swap$/, ok('Swap'), st('Swap', 'pools\\.(sp|tick|liq)|bal')]
})
def('C08', { // limits of a swap
  worlds: ['edge', 'ticks', 'ends'], profiles: ['swap', 'ticks', 'extreme', 'mix', 'fees'], steps: ['limits', 'swapAmounts'], hears: [ok('Swap'), /^rollback:Swap$/]
})
def('C09', { // the fee of a swap
  worlds: ['fees', 'edge'], profiles: ['fees', 'swap', 'extreme', 'mix', 'ticks'], steps: ['feeTaken'], hears: [st('Swap|SwapRoute', 'pools\\.(fgx|fgy|fpx|fpy)')]
})
def('C10', { // who earns fees
  worlds: ['fees', 'ticks'], profiles: ['fees', 'ticks', 'stack', 'liq', 'mix', 'swap'], steps: ['feesEarned', 'feesKept', 'claimOnce', 'reported'],
  hears: [/^out:ClaimFee$/, ok('ClaimFee'), st('ClaimFee', '.*'), st(any, 'pos\\.(fx|fy|ox|oy)|ticks\\.(fox|foy)')]
})
def('C11', { // deposits and withdrawals
  worlds: ['ticks', 'edge', 'ends'], profiles: ['liq', 'stack', 'ticks', 'extreme', 'mix', 'funds'], steps: ['liquidityAmounts'],
  hears: [ok('CreatePosition|RemovePosition'), st('CreatePosition|RemovePosition|Burn', 'bal')]
})
def('C12', { // the list of positions
  worlds: ['consent', 'ticks'], profiles: ['liq', 'nft', 'mix', 'query'], n: [64, 3000], big: { profiles: ['many'], n: [8, 200] }, state: ['positionsWellFormed'], steps: ['ledger'], queries: true,
  hears: [st(any, 'pos#|pos\\.(key|liq|lo|up|blk)'), /^query:(QCount|QPosition|QPositions|QTokens|QAllTokens)$/, /^inconsistent/]
})
def('C13', { // only with the owner's consent
  worlds: ['consent'], profiles: ['nft', 'mix', 'liq'], steps: ['noTheft', 'framePositions'],
  hears: [ok('TransferNft|SendNft|Burn|TransferPosition|RemovePosition'), st('TransferNft|SendNft|Burn|TransferPosition', '.*'), /^out:SendNft$/]
})
def('C14', { // configuration
  worlds: ['admin'], profiles: ['admin', 'mix'], steps: ['adminOnly'],
  hears: [ok('AddFeeTier|RemoveFeeTier|ChangeAdmin|ChangeProtocolFee|ChangeFeeReceiver'), st(any, 'admin|pfee|tiers|pools\\.recv'), /^query:(QAdmin|QProtocolFee)$/]
})
def('C15', { // protocol fees are paid to the receiver
  worlds: ['admin', 'fees'], profiles: ['admin', 'fees', 'mix'], steps: ['protocolFeePaid'],
  hears: [ok('WithdrawProtocolFee'), st('WithdrawProtocolFee', '.*'), st(any, 'pools\\.(fpx|fpy)')]
})
def('C16', { // creating pools
  worlds: ['admin'], profiles: ['admin', 'query', 'mix', 'extreme'], n: [80, 3000], big: { profiles: ['wide', 'admin'], n: [8, 200] }, state: ['poolKeys', 'priceTick'], steps: ['poolCreated'], queries: true,
  hears: [ok('CreatePool'), st('CreatePool', '.*'), /^query:(QPool|QPair|QPools)$/], kind: ['histories', 'functions'], groups: ['keys'], calls: [4000, 400000]
})
def('C17', { // fee tiers
  worlds: ['admin'], profiles: ['admin', 'query'], state: ['tierList'], queries: true,
  hears: [ok('AddFeeTier|RemoveFeeTier'), st(any, 'tiers'), /^query:(QFeeTiers|QFeeTierExist)$/]
})
def('C18', { // quotes
  quotesOnly: true, worlds: ['edge', 'coins', 'ends'], profiles: ['swap', 'route', 'ticks', 'funds', 'extreme', 'query'], queries: true, hears: [/^query:(QQuote|QQuoteRoute)$/, /^quote:/]
})
def('C19', { // routes
  worlds: ['coins'], profiles: ['route', 'funds', 'route', 'mix'], steps: ['limits'],
  hears: [ok('SwapRoute'), st('SwapRoute', '.*'), /^(out|rollback):SwapRoute$/]
})
def('C20', { // attached coins
  worlds: ['coins'], profiles: ['funds', 'route', 'funds', 'liq', 'mix'], steps: ['coinsExact'], hears: [/^funds:/]
})
def('C21', { // isolation
  worlds: ['coins', 'consent', 'admin', 'fees'], profiles: ['mix', 'route', 'nft', 'admin', 'funds', 'drain', 'fees'], steps: ['framePools', 'framePositions', 'frameBalances', 'conserved'],
  hears: [/^rollback:/]
})
def('C24', { // views
  worlds: ['consent', 'admin', 'ticks'], profiles: ['query', 'query', 'ops'], queries: true, n: [56, 2000], big: { profiles: ['many', 'wide'], n: [8, 200] }, hears: [/^query:/, /^inconsistent/], kind: ['histories', 'functions'], groups: ['views'], calls: [64, 6000]
})
def('C28', { // time
  worlds: ['ticks', 'fees'], profiles: ['ticks', 'stack', 'mix', 'swap', 'liq'], state: ['secondsOutside'], hears: [st(any, 'pools\\.(start|last)|ticks\\.so')]
})
def('C29', { // liquidity per tick
  worlds: ['ends'], profiles: ['extreme', 'extreme', 'stack'], state: ['liquidityCap'], hears: [ok('CreatePosition')]
})
def('C30', { // slippage of a deposit
  worlds: ['ticks'], profiles: ['liq', 'ticks', 'mix', 'funds'], steps: ['depositLimits'], hears: [ok('CreatePosition')]
})
def('C31', { // approvals
  worlds: ['consent'], profiles: ['nft', 'query', 'ops'], big: { profiles: ['many', 'nft'], n: [8, 100] }, steps: ['approvalsGiven', 'operatorsGiven'], queries: true,
  hears: [ok('Approve|Revoke|ApproveAll|RevokeAll|TransferNft|SendNft|Burn'), st(any, 'pos\\.appr|ops'), /^query:(QOwnerOf|QOperators|QAllNftInfo|QNftInfo)$/]
})
def('C33', { // events
  worlds: ['consent', 'admin', 'ticks', 'coins'], profiles: ['mix', 'nft', 'liq', 'admin', 'funds', 'fees'], n: [64, 2000], events: true, hears: [/^event:/, ok('Migrate'), st('Migrate', '.*')]
})
const fn = (id, groups, calls) => { P[id] = { kind: 'functions', state: [], steps: [], groups, calls } }
// calls: size of the sample: quick, thorough
fn('C22', ['ticks'], [24000, 443637])
fn('C23', ['search'], [24000, 2000000])
fn('C25', ['sdk', 'sim', 'kit', 'liqsdk'], [12000, 600000])
fn('C26', ['liq'], [24000, 1000000])
fn('C27', ['dec'], [60000, 3000000])
fn('C32', ['curve'], [48000, 3000000])
module.exports = P
