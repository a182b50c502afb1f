na('C40','Relates the output to what another program (a CommonMark parser) reads from it: the verdict depends on runtime text that no sound static argument in reach can bound. The decidable parts are C13-C16, C18-C20, C25 and C39.')
na('C41','Relates the output text to the layout of a browser, character by character: a functional-correctness statement over runtime strings. The structural part (preformatted text is left alone) is C30.')
na('C42','Arithmetic on runtime values (the n-th item, the widest cell): needs functional correctness of counting loops, which no dataflow, typestate or effect analysis decides. The bounded part is C08 and the shape part is C26.')
na('C43','A complexity bound quantifies over the running time of data-dependent loops and of the standard library; no sound static cost analysis for Go is in reach. Termination is C07 and attribute-driven blow-up is C08.')
na('C06','In-bounds indexes, non-nil links and attached/detached nodes are relations between runtime lengths, positions and tree shapes. No sound static argument in reach (without a relational solver) separates guarded uses from unguarded ones; a check would alarm on correct code. Number-driven failures are C08, non-termination C07.')
na('C23','Exactly-once preservation under detach/attach/merge of a mutable linked tree needs shape (heap) analysis with loop invariants; none is in reach for Go. Decided parts: deletion is for documented reasons only (C12, C37), text is changed only outside of preformatted elements (C30), renderers write all of their content (C22).')
