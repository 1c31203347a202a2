FINDINGS += [
 {"id": "C19-deep-expression", "property": "C19", "suite": "fuzztext", "directed": "a chain of 100000 operators", "key": "san:stack-overflow.*", "what": "an expression nested deeper than the C stack allows (a chain of 100000 operators) overflows the stack: osc_expr_eval and osc_expr_free recur once per operand"},
 {"id": "C19-endless-recursion", "property": "C19", "suite": "fuzztext", "directed": "a function that calls itself for ever", "key": "san:stack-overflow.*", "what": "a function that calls itself through its address without end overflows the stack: the evaluator has no limit"},
]
