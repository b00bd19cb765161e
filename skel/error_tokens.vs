        //@@fn src=peg-runtime/error.rs sel="ExpectedSet::tokens" vis
            ensures IteratorSpec::obeys_prophetic_iter_laws(&r), IteratorSpec::decrease(&r) is Some,
                IteratorSpec::will_return_none(&r) ==> ascending(IteratorSpec::remaining(&r), self.expected@),
        //@@pre
            proof { str_cmp_lawful(); order_facts(self.expected@); }
        //@@closure 0
            -> (r: &'static str) ensures r == *x
        //@@end
