PATH = "Decides the rule on every abstract path of the analysed entry point (all inputs), following helpers and closures; library functions, interface implementations outside the root and the Go memory model are trusted as modelled. "
LEVELS = {
 "C01": ("path-sensitive interprocedural dataflow over SSA", PATH),
 "C02": ("path-sensitive interprocedural dataflow over SSA", PATH),
 "C03": ("path-sensitive interprocedural dataflow over SSA", PATH),
 "C04": ("path-sensitive dataflow, must-precede rules at session stores", PATH),
 "C09": ("path-sensitive dataflow, must-precede rule at the code exchange", PATH),
 "C10": ("symbolic decomposition of returned redirects over SSA paths", PATH),
 "C12": ("path-sensitive dataflow over logout paths", PATH),
 "C13": ("path-sensitive dataflow, typestate of rejected sessions", PATH),
 "C14": ("path-sensitive dataflow over the engine and stores (must-error on missing configuration)", PATH),
 "C15": ("loop-summary dataflow over the engine, the store and the trie (candidate coverage)", PATH),
 "C16": ("loop-summary dataflow over event handlers, target parser, store and trie (declared = stored)", PATH),
 "C17": ("path-sensitive dataflow over the worker loop and the notification closures (every key handled once by its cache state)", PATH),
 "C18": ("ownership dataflow: no write into memory reachable from a cached object", PATH),
 "C31": ("path-sensitive dataflow, must-precede rule at the worker start and over the construction of the adapter", PATH),
 "C11": ("symbolic decomposition of generated identifiers over SSA paths (provenance of every character)", PATH),
 "C19": ("path-sensitive dataflow through the HTTP exchange (adopt only behind success; old data in force otherwise)", PATH),
 "C20": ("path-sensitive dataflow, must-attempt rule on every endpoint and key answer", PATH),
 "C21": ("symbolic decomposition of the token request at its sending call", PATH),
 "C22": ("dataflow over client construction and response bodies (must-close), ranking of retry loops and recursion", "Decides the rule for every place of the handwritten code that makes a client, sends a request or repeats an outward call; client-go's own HTTP client is outside."),
 "C27": ("path-sensitive absence-of-panic analysis over SSA (nil provenance, guarded assertions, linear bounds)", "Values are judged by where they come from: what a successful library call returned and what every constructor of a component sets counts as present; unchecked results, message parts, map entries, decoded data must be checked on the path. Panics inside library code are covered only for the preconditions modelled (receivers, byte-order reads, strings.Repeat, random ranges). Stack exhaustion and memory exhaustion are outside."),
 "C36": ("path-sensitive dataflow over the configuration handler and the client it registers", PATH),
 "C37": ("cross-file consistency analysis of the Helm chart, the generated messages and the command line", "Reads the chart with its default values; conditional blocks of the templates are taken as present."),
 "C35": ("value dataflow over the claim conversion (exactness of the number-to-text conversion)", "Decides that the text a number is compared by determines that number; the rounding done while JSON is decoded into a float64 is outside."),
 "C38": ("path-sensitive dataflow with symbolic decomposition of every answer", PATH),
 "C39": ("path-sensitive dataflow over the validator's error returns and the strategy's expired sessions", PATH),
 "C40": ("flow-sensitive aliasing analysis of the copy functions over SSA (every field an independent copy at every return)", "Decides every DeepCopyInto, DeepCopy and DeepCopyObject of the policy API package and the helpers they use; the copies of library types (ObjectMeta, ListMeta) are trusted."),
 "C41": ("must-reach analysis over control flow, call graph and channels (signal receipt to server stop, serve return to process end)", "Paths are distinguished by the selected case of a select only; that GracefulStop returns is grpc's contract together with C22; a server pointer is taken as present."),
 "C30": ("path-sensitive dataflow with constant evaluation of the status mapping", PATH),
 "C32": ("symbolic decomposition of redirect locations over SSA paths", PATH),
 "C05": ("path-sensitive interprocedural dataflow over SSA (must-verify before accept)", PATH),
 "C06": ("value-provenance dataflow over SSA paths", PATH),
 "C07": ("loop-summary analysis (for-all over the rule list) on SSA paths", PATH),
 "C08": ("loop-summary analysis (for-all/exists over claim values) on SSA paths", PATH),
 "C23": ("interprocedural lock-set analysis with freshness/publication tracking over SSA", "Decides that all accesses of each written shared region hold one common lock, over every call path from every concurrent operation; regions are field paths of types, so a lock protecting one instance is matched by access path, and paths are distinguished by locks held, not by conditions."),
 "C24": ("lock typestate and lock-order analysis over SSA (deferred releases, re-acquisition, waiting under a lock)", "Same traversal as C23; termination of the network calls themselves is C22."),
 "C25": ("context-sensitive taint analysis over SSA from credential sources to log and panic sinks", "May-flow over all functions reachable from the request handler, main and unused operations; error texts of libraries outside fmt, errors, strconv and net/url are trusted not to repeat a secret; numbers and lengths of a secret are not the secret."),
 "C26": ("context-sensitive taint analysis over SSA from secrets to responses and outgoing requests", "Same analysis as C25; an outgoing request that carries a secret must be addressed with the discovered token endpoint alone."),
 "C28": ("constant propagation over the conversion functions, compared with the cluster schema; path-sensitive engine rule", "Every value listed in the Helm CRD schema is folded through the SSA of the conversion functions; schema field names are compared with the JSON tags of the v1 types and the CRD identity with the generated client."),
 "C29": ("path-sensitive dataflow over the size options, the command line and every construction of the cookie codec", "The option type is executed abstractly on an arbitrary text from the configuration's initial state; every constructor call of the codec is followed on all paths of the operation reaching it."),
}
