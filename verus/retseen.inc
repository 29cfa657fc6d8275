//@@ closure Target::METHOD retain#NTH
//@@ sig: fn KEEP($0: &T, SETVAR: &mut HashSet<T>) -> bool
//@@ spec: ensures r == !old(SETVAR)@.contains(*$0), final(SETVAR)@ == old(SETVAR)@.insert(*$0)
//@@ end
//@@ include retseen0.inc KEEP0=>KEEP RETAIN0=>RETAIN
