        #[verifier::external_body]
        //@@fn src=peg-runtime/str.rs sel="Parse for str::position_repr"
        //@@end
