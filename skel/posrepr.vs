        //@@fn src=peg-runtime/str.rs sel="Parse for str::position_repr" redirect="filter.count,take_while.count"
        //@@pre
            broadcast use chars_reversed; proof { line_col_facts(self, pos as int); }
        //@@end
