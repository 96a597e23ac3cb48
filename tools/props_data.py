p("C01","Nil graphs are safe everywhere",
  "Every method of a graph node can be called on a nil node (such as the result of a lookup that found nothing, at any point of a chain) and with nil node arguments without panicking. The result is then neutral: nil, empty, zero, false, the caller's default, or an error.",
  ["inputs","programs"],"all exported methods of the graph type, all combinations of nil and non-nil receiver and node arguments",
  "Tests call a handful of methods on a nil result; the guarantee covers every method and every chain.",
  ["graph.go","gettypes.go","schema.go","sort.go","eval.go","encoding.go","html.go","binary.go"],
  [("nil guards at method entry","graph.go, gettypes.go"),("Get returns nil on failure and its doc promises safe chaining","graph.go Get")],
  claim=('abstract interpretation of the SSA form (nilness, numeric zones, strings, types) with inferred struct invariants',"other",'Sound over-approximation of all executions under the stated assumptions: every dereference, index, slice, assertion, division, comparison, reflect call and explicit panic reachable from the entry points is an obligation that must be discharged; an undecided one is a violation. Not covered: stack or memory exhaustion, cyclic graphs, panics in user supplied functions.'))
p("C02","Text parsing never panics",
  "Parsing any byte sequence as OGDL text, as a path, as an expression or as a template returns normally: no out-of-range access, nil dereference or other runtime panic, whatever the content, the length, or where the internal buffer boundary falls.",
  ["inputs"],"all byte sequences and all reader chunkings, through every parser entry point",
  "Tests parse some twenty short, mostly well formed strings, none longer than the 4096 byte buffer.",
  ["lexer.go","parser.go","block.go","flow.go","event.go","expression.go","template.go"],
  [("buffer window invariant","lexer.go fill/Byte/UnreadByte/Rune"),("event tree built by level","event.go Tree"),("AST construction","expression.go _ast")],
  claim=('abstract interpretation of the SSA form (nilness, numeric zones, strings, types) with inferred struct invariants',"other",'Sound over-approximation of all executions under the stated assumptions: every dereference, index, slice, assertion, division, comparison, reflect call and explicit panic reachable from the entry points is an obligation that must be discharged; an undecided one is a violation. Not covered: stack or memory exhaustion, cyclic graphs, panics in user supplied functions.'))
p("C03","Evaluating anything never panics",
  "Evaluating any parsed path or expression (even a malformed one), setting any path, and processing any parsed template against any graph returns a value or an error and never panics, except for panics raised inside user supplied functions.",
  ["inputs","programs"],"all expression, path and template trees produced by the parsers, all context graphs",
  "Tests evaluate well formed expressions on matching data; malformed trees and missing operands are combinations nobody enumerates.",
  ["eval.go","graph.go","template.go","function.go","expression.go"],
  [("operand guards","eval.go evalBinary/evalExpression/assign"),("index checks","graph.go set, eval.go getPath/evalPath")],
  claim=('abstract interpretation of the SSA form (nilness, numeric zones, strings, types) with inferred struct invariants',"other",'Sound over-approximation of all executions under the stated assumptions: every dereference, index, slice, assertion, division, comparison, reflect call and explicit panic reachable from the entry points is an obligation that must be discharged; an undecided one is a violation. Not covered: stack or memory exhaustion, cyclic graphs, panics in user supplied functions.'))
p("C04","Any node content can be rendered, converted, compared",
  "Rendering to text, HTML, JSON or binary, converting, comparing, finding, deleting, sorting and schema-checking never panic, whatever Go value a node holds (including nil, an empty string, a lone quote or space, or a byte slice) and whatever the shape of the tree.",
  ["inputs"],"all node contents and tree shapes",
  "Tests use short strings and small numbers; content types such as byte slices and degenerate strings are not sampled.",
  ["graph.go","gettypes.go","encoding.go","html.go","schema.go","sort.go","binary.go","io/gxml/xml.go"],
  [("type switches of the conversion helpers","gettypes.go"),("emitters","graph.go _text, html.go, encoding.go, binary.go")],
  claim=('abstract interpretation of the SSA form (nilness, numeric zones, strings, types) with inferred struct invariants',"other",'Sound over-approximation of all executions under the stated assumptions: every dereference, index, slice, assertion, division, comparison, reflect call and explicit panic reachable from the entry points is an obligation that must be discharged; an undecided one is a violation. Not covered: stack or memory exhaustion, cyclic graphs, panics in user supplied functions.'))
p("C05","Binary decoding survives any bytes",
  "Decoding any byte stream as binary OGDL, including truncated, corrupt or hostile ones, returns a graph or nil: it never panics, and never loops once the stream has ended or reports an error.",
  ["inputs","crash_points"],"all byte streams, truncated at any point, with any reader error at any point",
  "Tests decode three complete hand written streams.",
  ["binary.go","event.go","log.go","ogdlrf/client.go","ogdlrf/server.go"],
  [("end of stream signalled by -1","binary.go read"),("line production","binary.go line"),("tree builder","event.go Tree")],
  claim=('abstract interpretation of the SSA form (nilness, numeric zones, strings, types) with inferred struct invariants; the loops that read are followed with the end of the stream as a typestate',"other",'Sound over-approximation of all executions under the stated assumptions: every dereference, index, slice, assertion, division, comparison, reflect call and explicit panic reachable from the entry points is an obligation that must be discharged; an undecided one is a violation. Every loop that reads is followed: an iteration that begins after a failed read, or reads nothing, must not be able to repeat. Not covered: stack or memory exhaustion, cyclic graphs, panics in user supplied functions, recursion in place of loops.'))
p("C06","Parsing always terminates",
  "Every scanning loop of the OGDL, path, expression and template parsers either consumes input in each iteration or stops, and stops at the end of the stream; no input makes a parser loop forever.",
  ["inputs"],"all byte sequences",
  "A hang needs a specific malformed or long input; tests only show termination of the samples.",
  ["lexer.go","block.go","flow.go","template.go"],
  [("end of stream yields byte 0, which ends every token class","lexer.go"),("production loops","block.go line/tree, flow.go Path/ArgList/Expression")],
  claim=('abstract interpretation of the productions with ghost counters of what has been consumed, production summaries computed as a fixed point, ranking of loops, acyclicity of the calls that consume nothing',"other",'Assumes that Byte and UnreadByte move the read position by one (C07), and that what is unread is still in the window. Each loop consumes, or something bounded decreases, in all iterations but one in a row; recursion without consuming is excluded. Time per byte is not bounded.'))
p("C07","Parsing does not depend on how the reader delivers bytes",
  "The graph obtained from a stream depends only on its bytes: not on how many bytes each Read returns, on empty reads, or on whether the last bytes arrive together with the end-of-file error. No byte delivered by the reader is dropped, and the stream is only taken as ended when the reader said so or stopped making progress.",
  ["inputs","schedules"],"all chunkings of all streams allowed by the io.Reader contract",
  "Tests read from in-memory readers that deliver everything in one call.",
  ["lexer.go","parser.go"],
  [("buffer refill","lexer.go fill"),("end mark","lexer.go lastByte")],
  claim=('abstract interpretation of the window of the lexer with ghost counters (where the window begins in the stream, bytes received, read position), from the reader to the byte handed out',"other",'Follows the bytes from the reader to Byte and UnreadByte; everything else is shown not to touch the window. Assumes the contract of io.Reader, and that the end of the stream is reported again when it is read once more.'))
p("C08","A token that does not match consumes nothing",
  "When a lexer production (word, quoted string, number, operator, integer, space, line break, comment, block, template text) reports that it did not match (without reporting an error, as for an unterminated quoted string), the read position is where it was; when a verbatim token (word, operator, integer, template text) matches, the returned text is exactly the bytes consumed.",
  ["inputs"],"all byte sequences at every position",
  "Backtracking errors show only for particular byte combinations after a partial match.",
  ["lexer.go"],
  [("unread after lookahead","lexer.go productions")],
  claim=('abstract interpretation of the lexer productions with ghost counters of the position, the window of known bytes, and the characters kept in the token',"other",'Assumes that Byte and UnreadByte move the read position by one (C07), and that what is unread is still in the window. An unterminated or badly indented quoted string is reported as an error and is exempt; verbatim tokens are words, operators, integers and template text. The end of stream position and the one past it are told apart for what does not match and for looking ahead.'))
p("C09","Constructs leave the nesting level as they found it",
  "Parsing a line, path, index, selector, argument list, expression or template variable, whether well formed or not, leaves the nesting level of the tree under construction as it was, so that a construct never changes where later content is attached.",
  ["inputs"],"all inputs, well formed or not, and all exits of each production",
  "Tests use well formed constructs, and compare few trees.",
  ["block.go","flow.go","template.go","event.go"],
  [("saved and restored level","flow.go Index/Selector/ArgList/Args, block.go line, template.go Variable")],
  claim=('abstract interpretation of the productions with the nesting level of the event handler, production summaries assumed inductively for the calls',"other",'Assumes that Byte and UnreadByte move the read position by one (C07), and that what is unread is still in the window. The level is that of SimpleEventHandler.'))
p("C10","Variable integers decode to what was encoded",
  "For every integer in the documented range of each length class, the binary encoder emits a byte sequence that the decoder maps back to that integer, consuming exactly those bytes.",
  ["inputs"],"all integers from 0 to 0x0fffffff",
  "Tests try five values, with a condition that passes when only the length is right.",
  ["binary.go"],[("encoder","binary.go newVarInt"),("decoder","binary.go varInt")],
  claim=('bit-level dataflow: each bit of a symbolic integer is followed through the encoder and, from the bytes it emits, through the decoder, for each range that the code distinguishes',"other",'The decoder, followed on the emitted bytes, gives each bit back, from exactly those bytes; the ranges that are encoded leave no gaps.'))
p("C11","Encoded nodes are unambiguously framed",
  "In the binary form every node is written as level, content and terminator, such that content of any bytes (including zero bytes or a leading control byte) is read back with the same bytes and never runs into the following node.",
  ["inputs"],"all graphs and node contents",
  "Tests encode two short text nodes.",
  ["binary.go"],[("encoder","binary.go bin/Binary"),("decoder","binary.go line")],
  claim=('abstract interpretation of the writer and the reader as automata of the format, with ghost counters of the bytes announced, written, read and kept',"other",'Lengths up to 0xfffffff; trees less than 0xfffffff levels deep. A reader that does not read byte by byte (io.ReadFull) is not followed.'))
p("C12","Queries and renderings do not modify the graph",
  "Looking up, traversing, converting, comparing, rendering, encoding and schema-checking a graph leaves the graph and everything reachable from it unchanged, even temporarily, so that any number of goroutines may do so at once; only an assignment operator in an evaluated expression, or a user supplied function, writes to it.",
  ["inputs","schedules"],"all graphs and all read-only operations, any interleaving of readers",
  "A write that is undone before returning, or that happens only for some content, is invisible to single threaded tests.",
  ["graph.go","gettypes.go","eval.go","encoding.go","html.go","schema.go","binary.go"],
  [("read-only methods","graph.go Get/Text/Show/Len/Node/Equals, encoding.go JSON, binary.go Binary")],
  claim=('points-to analysis (inclusion based, field and context sensitive) with write effects over the SSA form',"other",'Sound under the stated assumptions: a write that any query can reach and that may touch the receiver, its arguments or what they reach is a violation. User supplied functions are not counted.'))
p("C13","Copies are independent of the original",
  "The result of cloning a graph, and what copying adds to a graph, shares no node with the original: later changes to one are never visible in the other (apart from what pointers kept as node content refer to).",
  ["histories","inputs"],"all graphs and all later modifications of either side",
  "One test compares a copy for equality; it never modifies the original afterwards at every depth.",
  ["graph.go"],[("Clone, Copy","graph.go")],
  claim=('points-to analysis (inclusion based, field and context sensitive) with write effects over the SSA form',"other",'Sound under the stated assumptions, for nodes and lists of children; pointers held as the content of a node are shared by design.'))
p("C14","No two nodes share a child list",
  "The list of children of a node is never the storage of another node's list: adding, deleting, replacing or sorting children of one node never changes the list of children of another node.",
  ["histories","programs"],"all sequences of graph operations",
  "Aliasing shows only after a second modification with spare capacity.",
  ["graph.go","eval.go","sort.go","template.go","io/gxml/xml.go"],[("appends to the own list","graph.go Add/AddNodes/addNodes/DeleteAt")],
  claim=('provenance (def-use) analysis of stored child lists over the SSA form',"other","Sound under the stated assumptions: every store of a child list and every append to one is traced back to where its backing array comes from; a list that is neither fresh nor the node's own is a violation."))
p("C15","Processing leaves the template unchanged",
  "Processing a parsed template never writes to the template, so that a template can be parsed once and processed any number of times, from several goroutines with different contexts.",
  ["histories","schedules"],"all templates and contexts, repeated and concurrent processing",
  "Each test processes a template once.",
  ["template.go","eval.go"],[("process","template.go")],
  claim=('points-to analysis (inclusion based, field and context sensitive) with write effects over the SSA form',"other",'Sound under the stated assumptions: every write below Process is shown not to touch the template.'))
p("C16","Operators compute what they say",
  "Each arithmetic, comparison, logical and assignment operator applies exactly the operation it names to its operands in source order, for integers, floating point numbers and strings, and integer division or modulus by zero is never executed. A comparison takes its type from the first operand (an integer, else a floating point number, else a text, and texts are not ordered); an operand that cannot be converted makes a comparison or logical operation false and an arithmetic operation nil, except that + concatenates texts; arithmetic of a number with a text that is no number is not specified.",
  ["inputs"],"all operators, operand type combinations and values",
  "Tests sample a few values per operator; zero divisors and mixed types are not covered.",
  ["eval.go"],[("calc, compare, logic, evalBinary, assign","eval.go")],
  claim=('abstract interpretation of the operator functions with symbolic value terms, one run per operator; zero-divisor obligations by interval analysis',"other",'Every path of the evaluator for each of 19 operators must give the named operation on successful conversions of the first and second operand, in order; nil and constants only for a stated reason.'))
p("C17","Operator precedence is total and as documented",
  "Every operator that the evaluator understands has a precedence, every operator with a precedence is understood by the evaluator and can be read by the lexer, and the order is that of Go with assignment lowest. Expressions are grouped accordingly: operators of one level from left to right, each taking what is at its left and what is at its right as its operands, in this order.",
  ["inputs"],"all operators",
  "Tests use expressions with one or two operators.",
  ["expression.go","eval.go","lexer.go"],[("precedence","expression.go"),("_ast","expression.go"),("evalBinary","eval.go"),("isOperatorChar","lexer.go")],
  claim=("abstract interpretation of the precedence table, the evaluator and the lexer's character class, per operator","other",'Operators found in the source have a precedence iff the evaluator has a result for them; order relations between groups; all levels visited; characters readable. The loop that groups the elements is followed with the list as a sequence of parts of what it was: in every iteration the next element is looked at, and an operator of the level takes exactly its neighbours, in order.'))
p("C18","Template control flow is exact",
  "In a template, of a chain that starts with an if, has any number of elseif and at most one final else, exactly one branch is rendered: that of the first true condition, or else the final branch if there is one and no condition was true; a for renders its body once for each subnode of the list that its expression gives, in order, with its variable holding that one; all other nodes are rendered once, in order (text as it is, paths as their value, expressions as nothing); break ends the innermost enclosing loop and nothing else, also from inside a conditional; constructs nest to any depth, each end closing the innermost open if or for. (An elseif or else without an if is not specified.)",
  ["inputs","programs"],"all templates and contexts",
  "Tests have three conditionals and no break.",
  ["template.go"],[("process","template.go")],
  claim=('path-sensitive abstract interpretation of the rendering, nesting and keyword functions, with the kind of each node, the result of each condition and of each nested rendering as cases',"other",'Every iteration over the nodes is decided for each kind of node and each state of the chain; breaks are followed through the results of nested rendering; nesting puts each node exactly once in the right list.'))
p("C19","Typed getters never pass off a default as a value",
  "A getter that takes a path that is not empty and returns a value and an error returns a nil error only when the path was found and its content converted; a getter of one value with a default (Int64, Float64, Bool, String, ThisString) returns the default whenever it is given and the content is missing or cannot be converted (for texts: is empty), and the converted content otherwise.",
  ["inputs"],"all graphs, paths and defaults",
  "Tests check one success case per type.",
  ["gettypes.go"],[("GetInt64, GetFloat64, GetBool, GetString, GetBytes, Int64, Float64, Bool, String","gettypes.go")],
  claim=('path-sensitive abstract interpretation of each getter over opaque conversions, and of each conversion over opaque parsing',"other",'Every exit of every getter and conversion is decided: nil error implies found and converted; default iff missing or unconvertible; success of a conversion implies it came from the argument.'))
p("C20","Strings in JSON output are escaped",
  "Every node content that is written to JSON output is written as a string, escaped as JSON requires, or as a number if it is an integer or a finite floating point number, so that no content can end its string or produce an invalid token. (Whether the tokens are arranged as JSON requires is another matter.)",
  ["inputs"],"all node contents",
  "Tests print JSON of plain words without checking it.",
  ["encoding.go"],[("writeString, writeValue","encoding.go")],
  claim=('abstract interpretation of everything that renders JSON, as a taint analysis: what is written is classified at each write',"other",'Every write to a buffer or encoder that is reachable from the JSON method is decided, on every path.'))
p("C21","Results are deterministic",
  "Parsing, importing, evaluating and rendering give the same result for the same input on every run: no result depends on map iteration order, time, random numbers, the environment, memory addresses or goroutine scheduling. (A node content without a text form of its own, such as a function, a channel or a pointer, is printed as Go prints it.)",
  ["inputs","schedules"],"all inputs, repeated runs",
  "A test sees one run; iteration order differs only sometimes.",
  ["encoding.go","graph.go","io/gxml/xml.go"],[("ordered traversal","graph.go"),("object keys","encoding.go toGraph")],
  claim=('nondeterminism lint with taint propagation over the SSA form',"other",'Every source of nondeterminism (map iteration, time, random numbers, environment, addresses, goroutines, select) reachable from an entry point must be shown harmless or is a violation.'))
p("C22","Independent graphs can be used concurrently",
  "No package keeps state that is modified after initialisation, so that parsing, evaluating and encoding unrelated graphs in different goroutines never interact.",
  ["schedules"],"all interleavings",
  "Tests are single threaded.",
  ["vars.go","lexer.go","ogdlrf/server.go"],[("package level variables","vars.go, ogdlrf/client.go, ogdlrf/server.go")],
  claim=('points-to analysis (inclusion based, field and context sensitive) with write effects over the SSA form',"other",'Sound under the stated assumptions: every write reachable from any entry point is shown not to touch package level variables or what they reach; captured variables of connection handlers likewise.'))
p("C23","The log only grows, and returns true positions",
  "Adding to a log never truncates or overwrites what it holds, whatever was read or added before; the position returned is where that record starts, and the next position returned by the readers is the position given plus the length of the record.",
  ["histories"],"all sequences of opens, adds and reads",
  "One test adds three records to a new file.",
  ["log.go","binary.go"],[("seek to end before write","log.go Add/AddBinary"),("byte counter","binary.go read")],
  claim=('abstract interpretation with ghost state (position in the file, bytes consumed)',"other",'Sound over-approximation of all paths: each write is shown to happen at the end of the file, and the positions returned are shown equal to the ghost position of the record or of the byte after it.'))
p("C24","A log record is synced before its position is returned",
  "With automatic sync on, every path of the operations that add a record to a log file forces the file to stable storage after the write and before returning. (An add whose write fails is not an add.)",
  ["crash_points"],"all paths through the add operations",
  "Tests cannot observe what survives a crash.",
  ["log.go"],[("Sync after Write","log.go Add/AddBinary")],
  claim=('abstract interpretation with ghost state (bytes not yet synced)',"other",'Sound over-approximation of all paths: at each successful return of an add operation nothing written is left unsynced unless automatic sync is off.'))
p("C25","Remote connections are released and never reused after an error",
  "Every connection that a remote function server accepts is closed on every exit of its handler; a client closes a connection before it drops or replaces it, and after any failed exchange never uses it for another request.",
  ["fault_sequences","histories"],"all sequences of calls and network faults",
  "There are no tests for this package.",
  ["ogdlrf/client.go","ogdlrf/server.go"],[("Close, Dial, Call","ogdlrf/client.go"),("deferred close","ogdlrf/server.go")],
  claim=('abstract interpretation with ghost typestate of the connection',"other",'Sound over-approximation of all paths of the client methods and connection handlers under the stated assumptions: typestate of the connection (open, failed, closed, dropped) at every use, store and return.'))
p("C26","Remote messages are framed completely",
  "In the protocol with length-prefixed messages, a message is sent as its length followed by exactly that many bytes, and is only decoded after all the bytes announced have been received, however the network splits them; a failed or short read or write ends the exchange with an error.",
  ["fault_sequences","schedules"],"all splittings of messages by the network, and faults at any point",
  "There are no tests for this package, and a local connection rarely splits messages.",
  ["ogdlrf/client.go","ogdlrf/server.go"],[("callV2","ogdlrf/client.go"),("process","ogdlrf/server.go")],
  claim=('abstract interpretation with ghost state (bytes announced, written and received)',"other",'Sound over-approximation of all paths: bytes written after a length are shown equal to it, and bytes received before decoding equal to the number announced, for messages with a length prefix.'))
p("C27","Reading from the network is always bounded by the timeout",
  "Every read from a remote connection, on the server and on the client, is preceded on every path by setting a deadline for that exchange, so that a silent peer cannot block it forever.",
  ["fault_sequences"],"all paths to a network read",
  "There are no tests for this package.",
  ["ogdlrf/client.go","ogdlrf/server.go"],[("SetDeadline, SetReadDeadline","ogdlrf")],
  claim=('abstract interpretation with ghost typestate of the deadline',"other",'Sound over-approximation of all paths: at every read a deadline computed from the current time has been set for this exchange.'))
p("C28","Functions are called only with matching arguments",
  "A Go function found in a graph is called from a path only with exactly the arguments written, in their order, each of its parameter's type; otherwise an error is returned and nothing is called. A method is called with its arguments in their order, converted to the types of the parameters (a missing or nil argument is the zero value, extra ones are left out); one that cannot be converted is an error, and nothing is called.",
  ["inputs","programs"],"all functions, argument lists and argument values",
  "Tests call two functions with the right arguments.",
  ["function.go"],[("argument checks","function.go function, convert")],
  claim=('path-sensitive abstract interpretation of the calls through reflection, with counters for the arguments evaluated, placed and compared, and the kind of what is called as cases',"other",'Every call through reflection is decided: the arguments are the values of the expressions in their order, of the types of the parameters; everything else ends in an error.'))
p("C29","Schema checking accepts only conforming content",
  "A document is accepted by a schema only if, for every node of the schema, the corresponding node exists and its content conforms to the declared type (a number or truth type: the content converts to that type; a text or bytes type: the content is of that type), or, when the schema declares a literal, equals it as text. (Nil children of the schema are not specified.)",
  ["inputs"],"all schemas and documents",
  "One test with one conforming document.",
  ["schema.go"],[("Check, checkNode","schema.go")],
  claim=('path-sensitive abstract interpretation of the schema checker, with the declared type, the existence of the node and the outcome of each conversion as cases',"other",'Every path that accepts a node is decided for each declared type; every child of the schema is visited on every path that accepts.'))
p("C30","Sorting only reorders",
  "Sorting the children of a node only exchanges whole children: none is lost, duplicated or changed, and the comparison used is a strict order that depends only on the sort field of the two nodes compared.",
  ["inputs"],"all graphs and fields",
  "There are no tests of sorting.",
  ["sort.go"],[("Swap, Less, Len","sort.go")],
  claim=('path-wise symbolic evaluation of the comparison, exchange and length functions of the sorters; strict-order laws decided by form of the comparison',"other",'Swap is an exchange of two whole children; Less is a strict comparison of the same field of the two nodes.'))
p("C31","Typed parsing keeps quoted text and picks the narrowest type",
  "In typed parsing a quoted scalar is always kept as a string; an unquoted one becomes an integer if it is one, else a floating point number if it is one, else a boolean if it is true or false, else the string itself.",
  ["inputs"],"all scalars",
  "Tests parse four typed scalars.",
  ["lexer.go","block.go"],[("ScalarType","lexer.go"),("OgdlTypes","block.go")],
  claim=('path-sensitive abstract interpretation of the typed scanner and parser, with the outcome of each conversion as cases and the stored value as a term',"other",'The value stored for each scalar is decided on every path, for quoted and unquoted text.'))
p("C32","The library leaves the process that uses it alone",
  "No function of the library (the package itself, io/gxml and ogdlrf, but not the commands) ends or signals the process or the calling goroutine, writes to the standard output or reads the standard input, changes settings that the whole process shares (environment, directory, standard logger, signals, runtime, variables of other packages), or creates, clears, removes or renames files, except that OpenLog creates the log.",
  ["inputs"],"all functions of the library",
  "Tests would have to reach each error path; a test cannot show that a call does not occur.",
  ["*.go","ogdlrf/*.go","io/gxml/xml.go"],[("log.Println, Serve, Call","ogdlrf"),("OpenLog","log.go")],
  claim=('effect analysis over the SSA form: references to functions and variables of other packages',"other",'Every call and reference in every library function is compared with a list of effects on the process.'))
p("C34","Editing a list of subnodes changes only what it names",
  "The operations on the list of subnodes of a node do exactly what they say. Add appends the node, or a new node that holds the value, at the end and returns it (nothing for nil); AddNodes appends the subnodes of the other node in their order; DeleteAt removes the element at an index in range and nothing else, Delete removes every element whose content equals the value and only those, Clear all, and what remains keeps its order. Len, GetAt and Node give the number, the element at the index and the first element with the text, or nil; NodeOrNew, Create and NodeSet work on the first element with the text, or on a new one appended at the end if there is none. Clone and Copy make one copy of each subnode, in order, with the same content; Equals is true exactly if contents, number of subnodes and all pairs of subnodes are equal. None of them writes to any other node, except that Create and NodeSet empty the subnodes of the node they found.",
  ["inputs","histories"],"all graphs, indexes, texts and values",
  "Tests delete and add a handful of nodes in small graphs.",
  ["graph.go"],[("Add, AddNodes, Copy, Clone, Node, NodeOrNew, NodeSet, Create, GetAt, Delete, Clear, DeleteAt, Equals","graph.go")],
  claim=('path-sensitive abstract interpretation with a domain of node lists as sequences of parts of the lists at entry',"other",'At each return the list and the result are compared, as symbolic sequences, with what the operation names.'))
p("C35","Renderings leave out no node",
  "Rendering a graph as text, HTML, JSON or in binary form (Text, Show, Html, JSON, Binary) goes through all subnodes of each node, in their order, and leaves out none of them; everything is written to the same output, one after the other, and the subnodes of a node are one level deeper than the node (or at its level, if the node has nothing to write).",
  ["inputs"],"all graphs without nil subnodes",
  "Tests render small graphs.",
  ["graph.go","html.go","encoding.go","binary.go"],[("Text, Show, _text","graph.go"),("Html, _html","html.go"),("JSON, json","encoding.go"),("Binary, bin","binary.go")],
  claim=('path-sensitive abstract interpretation of each rendering function, with the visits of the elements of the list of subnodes counted in a ghost variable',"other",'At each return all elements have been handed on in order, with the level and the output that belong to them.'))
p("C36","Setting a value by path changes only what the path names",
  "Set goes down from the node along the names of the path, to the subnode of that name as long as there is one and from there to new nodes of the names that are missing, each added below the one before; the node reached at the end of the path then has the subnodes of the value (if it is a graph), just the value (if it is something else) or nothing (if there is no value) instead of those it had. If an element of the path is an index, the subnode of the node reached so far at that index is replaced by a new node with the value, after adding just as many nodes as needed for there to be one; an index that is not valid changes nothing. No other node is changed. Setting a node to itself changes nothing.",
  ["inputs"],"all graphs that are trees, all paths and values; what a path string means (its elements) is taken as given",
  "Tests set about ten paths.",
  ["graph.go"],[("Set, set, setAt, addNodes","graph.go")],
  claim=('path-sensitive abstract interpretation of Set with the node reached and the element of the path that is next as ghost state, and lists as sequences',"other",'Each call that goes down, adds or sets is for the next element of the path and the node reached, and nothing is written elsewhere.'))
p("C37","Everything that is read ends up in the tree",
  "Each token with a value that the parser reads (scalars, quoted strings, blocks, numbers, operators, template text) is added to the event handler exactly once, unchanged and in the order read, before anything else is read; besides tokens only the constant markers of constructs (and what callers emit) are added. The event handler keeps every item with the level it was added at (the current level, or the one given), deleting removes just the last one, and the level is changed only by increasing, decreasing (not below 0) or setting it. The tree it builds has one new node for each item, in the same order, below the last node before it of the level above, or below the root.",
  ["inputs"],"all texts, paths, expressions and templates; a construct that turns out to be malformed can be given up",
  "Tests parse some texts.",
  ["block.go","flow.go","template.go","event.go"],[("line, Expression, UnaryExpression, Path, Text","block.go, flow.go, template.go"),("SimpleEventHandler","event.go")],
  claim=('typestate analysis of the value of the last token over all paths of the functions of the parser, and abstract interpretation of the event handler',"other",'A token that was read must be added before the next step of the parser; each method of the handler is compared with what it does to the items, their levels and the current level.'))
p("C38","Importing JSON leaves out nothing",
  "FromJSON gives a graph that has all of the document: each list is converted by converting its elements, all of them, once each and in order, into a subnode each; each object has one node for each of its keys, with the converted value of that key below it; numbers are held as numbers, and other values as they are (null as a node without content). For a document that is a list the result has all of its elements.",
  ["inputs"],"all JSON documents; what encoding/json gives for a document is taken as given",
  "No test imports JSON.",
  ["encoding.go"],[("FromJSON, toGraph","encoding.go")],
  claim=('path-sensitive abstract interpretation of the conversion, with counters of the elements and keys converted as ghost state',"other",'At each return all elements of a list, or all keys of an object, have been converted and added to the right node.'))
p("C39","Importing XML follows the nesting of the document",
  "FromXML gives a graph in which each element of the document is a new node, named after it, below the node of the element it is in (or the root), in document order; the attributes of an element come first below its node, all of them in order, each with its value below it; each text that is not only space is a node below that of the element it is in; comments and other tokens add nothing.",
  ["inputs"],"all XML documents up to the first error; what encoding/xml gives for a document, and what becomes of accents and dashes in names, is taken as given",
  "No test imports XML.",
  ["io/gxml/xml.go"],[("FromXML","io/gxml/xml.go")],
  claim=('typestate analysis over the tokens of the document, with the stack of nodes and the attributes gone through as ghost state',"other",'Between two tokens exactly what belongs to the first one has been done, to the node on the top of the stack.'))
p("C33","A token is the longest run of characters of its class",
  "Each production of the lexer that is for a run of characters takes every character of its class from where it is up to the first one that is not of it, which is left to be read next, and reports a token if there was at least one; the text it gives is those characters, in order, and the number those there are: String (above space), Integer (digits), Number (an optional sign, digits and at most one point; the text has no plus sign, and a sign alone is no number), Operator (+-*/%&|!<>=~^), Token8 (letters, digits and _, as unicode has them), TemplateText (anything but $ and end characters), WhiteSpace (space, tab, line feed, carriage return), Space and SpaceMax (space and tab; with whether all are spaces, all tabs, or they are mixed; SpaceMax no more of them than asked for), Comment (#, a space or tab, and the rest of the line). Quoted gives the characters between the quotes, all and once; it may leave out only a backslash that is next to another one or before a quote, and after a line break no more spaces than the indentation given.",
  ["inputs"],"all inputs and positions; at the end of the input the character is 0; StringStop, Break, Block and Rune are not included",
  "The lexer's tests read about a dozen short samples.",
  ["lexer.go"],[("String, Integer, Number, Operator, Token8, TemplateText, WhiteSpace, Space, SpaceMax, Comment, Quoted","lexer.go")],
  claim=('dataflow of the characters read over the automaton of each class, with how many were read and which is still to be kept as ghost state',"other",'For each character that is read it is known if it belongs to the token; it must be kept, or left.'))
p("C43","Finding, substituting and merging apply to the nodes that match",
  "Find gives a new node with those subnodes, in order, whose own text the regular expression given matches, nil if there are none, and an error exactly if the expression is not valid; Substitute gives the new content to exactly those nodes below the node whose own text is the one given, and changes nothing else; Merge deals with the subnodes of the other graph in order: one whose own text no subnode has is added as a copy, one that a subnode has replaces the subnodes of the first such one by its own, unless both are the same node, and nothing else, the other graph in particular, is changed.",
  ["inputs"],"all graphs without cycles, that share no nodes other than at the same place; regexp is taken as given",
  "The tests find, substitute and merge in one small graph each.",
  ["graph.go","gettypes.go"],[("Substitute, Merge","graph.go"),("Find","gettypes.go")],
  claim=('typestate analysis over the subnodes gone through, with what has been looked for, found and written as ghost state',"other",'Before the next subnode exactly what belongs to the one before has been done.'))
p("C44","The whole input is parsed, with the production it is for",
  "FromString, FromBytes, FromReader and FromFile give the tree that the production for documents (FromStringTypes: the one with types) makes of all that they are given, or of the content of the file; NewPath and NewExpression the one that the production for paths, or for expressions, makes of the string, with the content of the root that marks it as such, and the expression as a syntax tree; NewTemplate and NewTemplateFromBytes the one that the production for templates makes of it, in which all expressions are made syntax trees, then it is simplified, then its flow nested. The input is neither cut nor changed before, and the result is that tree and no other; only FromFile gives nil, if the file cannot be read or is empty.",
  ["inputs"],"all inputs; what the productions themselves do is the subject of other properties",
  "Most tests go through FromString and NewTemplate; the twins are tested with a sample or not at all.",
  ["parser.go","template.go","flow.go","expression.go"],[("FromString, FromBytes, FromReader, FromFile, FromStringTypes","parser.go"),("NewTemplate, NewTemplateFromBytes","template.go"),("NewPath","flow.go"),("NewExpression","expression.go")],
  claim=('typestate analysis over the steps from the input to the tree, with the parser, the tree and what it reads as ghost state',"other",'The one parser reads what the function was given; production, tree and what follows happen once and in order.'))
p("C40","Text output parses back to the same graph",
  "Rendering a graph of strings as text and parsing the text gives back an equal graph.",
  ["inputs"],"all graphs of strings",
  "Tests compare fourteen samples.",
  ["graph.go","block.go","lexer.go"],[("_text","graph.go"),("line, Block, Quoted","block.go, lexer.go")],
  na="Equality of a rendering and its re-parse quantifies over the contents of unbounded strings and trees; no structural condition in reach implies or is implied by it. (It is also known not to hold: level-0 strings are printed unquoted, and backslash and carriage return are not kept.)")
p("C41","A path lookup finds the node the path describes",
  "Looking up a path returns the subtree reached by matching the names, indexes and selectors of the path in order, and nil exactly when there is none.",
  ["inputs"],"all graphs and paths",
  "Tests look up about ten paths.",
  ["eval.go","graph.go"],[("getPath, evalPath","eval.go")],
  na="Which node is reached depends on runtime names and data in the graph; deciding it needs an executable model of the path language compared on inputs, not a rule about the shape of the code.")
p("C42","JSON documents survive import and export",
  "Importing a JSON document and exporting it yields an equivalent document.",
  ["inputs"],"all JSON documents","No test imports JSON.",
  ["encoding.go"],[("FromJSON, JSON","encoding.go")],
  na="Value equivalence of two conversions over unbounded documents is not visible in the shape of the code (and the documented mapping of lists loses structure by design).")
