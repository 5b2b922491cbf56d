package newsim
define txEq(a, b) = a.Hash == b.Hash && a.Symbol.idx == b.Symbol.idx && a.Symbol.ts == b.Symbol.ts
