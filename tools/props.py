"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A3 = "tf_encrypted/protocol/aby3/aby3.py"
A3T = "tf_encrypted/protocol/aby3/aby3_tensors.py"
FP = "tf_encrypted/protocol/aby3/fp.py"
POND = "tf_encrypted/protocol/pond/pond.py"
TRI = "tf_encrypted/protocol/pond/triple_sources.py"
SNN = "tf_encrypted/protocol/securenn/securenn.py"
ODD = "tf_encrypted/protocol/securenn/odd_tensor.py"
TEN = "tf_encrypted/tensor/"
KER = "tf_encrypted/keras/"
OPS = "operations/"

P = []


def prop(id, title, statement, over, text, tests, files, mech, technique, note, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech,
                  technique=technique, note=note, observe=list(observe)))


prop("C01", "ABY3 values survive sharing, opening and delivery",
     "Whatever value enters the three-party protocol, by constant, variable, private or public input, local computation or "
     "conversion of a public value, every way of getting it out (opening it, delivering it to any of the servers or to an "
     "outside player) returns that value with its shape, exactly for integers, bits and exactly encodable reals and within "
     "one unit of the last place for other reals. Scaling and sharing type are those asked for.",
     ["inputs", "configurations"], "every value in range, shape, precision, integer width, sharing type, way in and receiving player",
     "tests enter a few small tensors through one or two constructors and open them in one way",
     [A3, A3T], [("encode / share / reconstruct", A3), ("tensor types", A3T)],
     "runtime oracle on round trips over generated values",
     "Exploration: every drawn value is compared on every element with an integer reference at each receiver.",
     ["result of reveal", "argument of an output function"])
prop("C02", "Replicated sharings stay consistent through whole programs",
     "At every moment of every program of three-party operations each private tensor is a valid replicated sharing (the two "
     "holders of each share hold the same words) and each public tensor is the same at all three servers. Composing exact "
     "operations gives the exact composed result, whatever their order and mix of arithmetic and boolean sharings.",
     ["programs", "inputs", "histories"], "all programs over the exact operations, all inputs, both precisions",
     "tests run single operations and look only at the opened value, which uses three of the six words",
     [A3, A3T], [("re-sharing after every interactive step", A3)],
     "invariant monitor on every tensor constructed, reference interpreter for random programs",
     "Exploration: an online monitor checks all six words of each tensor built while random programs run; final values are "
     "compared with an interpreter over integers.", ["all six share words of each tensor"])
prop("C03", "ABY3 linear and structural operations are exact",
     "Addition, subtraction, negation, sums, multiplication by integers, integer matrix products and convolutions, and every "
     "reshaping, slicing, joining, padding and patching operation of the three-party protocol return exactly the ring or "
     "tensor result for every shape, axis, broadcast and mix of private and public operands.",
     ["inputs", "configurations"], "all operand values, shapes, axes, broadcasts and operand kinds",
     "tests use one shape per operation, small positive values, no negative axes or uneven broadcasts",
     [A3, TEN + "native.py", TEN + "int128.py", TEN + "shared.py"], [("share-wise operations", A3)],
     "differential runtime oracle against integer references, share-consistency monitor",
     "Exploration with an exact reference; hostile ring values including the ends of the ring.", ["ring value of the result"])
prop("C04", "ABY3 products and truncation stay within their error bound",
     "Every multiplicative operation of the three-party protocol on fixed-point numbers (products, squares, powers, matrix "
     "products, convolutions, divisions by public values, averages, polynomials) and every truncation method returns the real "
     "result within its documented rounding error, for all operands whose product fits the ring.",
     ["inputs", "configurations"], "all operands in range, all shapes and operand kinds, all random masks",
     "tests compare a few small products with a loose tolerance and never reach carries, large magnitudes or negative extremes",
     [A3], [("truncate after multiply", A3)],
     "runtime oracle in units of the last place against rational arithmetic",
     "Exploration; tolerance of one unit (two for methods documented as looser), exact rational reference.", ["ring value of the result"])
prop("C05", "ABY3 boolean circuits and sharing conversions are exact",
     "Bitwise operations, shifts, adders, carry and bit extraction, and conversions between arithmetic and boolean sharings "
     "return exactly the bits of the ring element they are applied to, for every bit width and position.",
     ["inputs", "configurations"], "all ring elements, bit positions, widths, adder topologies, both precisions",
     "tests convert a handful of small integers", [A3], [("parallel prefix adder, a2b, b2a", A3)],
     "differential runtime oracle against integer bit arithmetic", "Exploration with an exact reference.", ["bits of the result"])
prop("C06", "ABY3 comparison, selection, maximum, sorting and pooling are right",
     "Comparisons, selection, maxima with their positions, sorting and max pooling on three-party shared data give the same "
     "answer as on clear data for every shape, axis, tie and sign, as long as differences stay below half the ring.",
     ["inputs", "configurations"], "all values incl. ties and extremes, shapes, axes, methods", "tests use small tensors without ties on one axis",
     [A3], [("msb extraction, select, sorting network, tree reduction", A3)],
     "differential runtime oracle", "Exploration with an exact reference; any maximal position is accepted for ties.", ["value of the result"])
prop("C07", "ABY3 approximations stay inside their error envelope",
     "Sigmoid, reciprocal, inverse square root, exponential, logarithm, softmax, powers of two and piecewise polynomials on "
     "shared data stay within a fixed error of the real function over their whole documented domain, including break points "
     "and powers of two.", ["inputs", "configurations"], "all arguments in the domain, all approximation methods, both precisions",
     "tests evaluate a few points with loose tolerances", [A3, FP], [("approximation polynomials, normalisation, iteration", FP)],
     "runtime oracle against float64 functions with calibrated envelopes",
     "Exploration; the envelope was measured on the repaired tree with head room of about 1.5 and is assumed to be the intended accuracy.", ["value of the result"])
prop("C08", "ABY3 masks are fresh, elementwise and uniform",
     "In every history of one or more protocol instances no pseudo-random stream is expanded twice by a player or reused by a "
     "later step, players that expand a common stream get the same numbers, and no stream masking a product is known to all "
     "three servers. The result of every interactive operation is re-randomised by independent uniform words, one per element.",
     ["histories", "programs", "configurations"], "all sequences of operations, inputs, key resets and protocol instances, all broadcasts",
     "no test looks at the randomness: a result is right whatever masks were used", [A3], [("key set-up, nonces, zero sharing", A3)],
     "trace monitor over every random draw with its player; statistics of result shares",
     "Exploration: all draws of each history are recorded through TensorFlow operation callbacks with every player on its own device.",
     ["seed and shape of each draw", "share words of results"])
prop("C09", "No ABY3 server's view depends on the secrets",
     "The values a single server computes or receives while secrets are input, computed on and delivered to someone else have "
     "the same structure and distribution whatever the secrets are. In particular no combination of the values one server sees yields a secret.",
     ["inputs", "programs"], "all secrets, all operations, each single server as observer",
     "tests look at results only; a leak does not change any result", [A3], [("placement of computations on servers, masking of messages", A3)],
     "view recording per player; two-secret distribution test; linear reconstruction attack",
     "Statistical exploration: detects structure differences, marginal bit biases above about 0.3 and linear leaks of up to three terms; joint non-linear leaks are out of reach.",
     ["every value on each server's device"])
prop("C10", "Secure random numbers are uniform, in range, fresh and seed-determined",
     "Numbers from the secure random operations lie in the half-open range asked for and are uniform on it, for every integer "
     "width, bound and shape. A seed determines the numbers on every machine and execution mode and different seeds give unrelated numbers; "
     "unseeded draws and fresh seeds never repeat, between calls, inside one compiled graph, or between processes.",
     ["inputs", "histories", "configurations"], "all widths, bounds, shapes and seeds; all sequences of draws, eager and compiled",
     "tests draw a few small tensors and check the range of one type", [OPS + "secure_random/secure_random.cc", "tf_encrypted/operations/secure_random/secure_random.py"],
     [("rejection sampling over the stream cipher", OPS + "secure_random/random.h"), ("operation registration", OPS + "secure_random/secure_random.cc")],
     "range assertions on every number, statistical monitors, repetition detector over recorded draws",
     "Exploration: ranges on every number; uniformity, independence and repetition by statistics at about ten standard deviations.",
     ["output of each random operation"])
prop("C11", "128-bit and bit-manipulation kernels compute exact ring arithmetic",
     "Every custom kernel on 128-bit integers and on bits of 8 to 128-bit integers returns what arbitrary-precision integer "
     "arithmetic reduced to the ring gives, elementwise with broadcasting, for every operand, shape, shift, axis and bit selection, "
     "with the shape inferred in graphs equal to the shape produced.",
     ["inputs", "configurations"], "all operand words including carries and sign boundaries, shapes, broadcasts, shifts, axes",
     "tests use small operands of one or two shapes, where no carry crosses the 64-bit words",
     [OPS + "tf_i128/int128_kernels.cc", OPS + "aux/aux_kernels.cc", "tf_encrypted/operations/tf_i128/tf_i128.py", "tf_encrypted/operations/aux/aux.py"],
     [("128-bit kernels", OPS + "tf_i128/int128_kernels.cc"), ("bit kernels", OPS + "aux/aux_kernels.cc")],
     "differential runtime oracle against Python integers, eager and compiled", "Exploration with an exact reference on hostile words.",
     ["output words and shape of each kernel"])
prop("C12", "Native kernels are free of memory errors and undefined behaviour",
     "While any of the custom kernels runs on any well-formed operands, from empty to large and in several threads at once, it "
     "performs no out-of-bounds or use-after-free access, leaks nothing and executes no undefined behaviour; operands it cannot "
     "accept raise an error and never corrupt memory.",
     ["inputs", "schedules"], "all operands and shapes, concurrent executions", "tests run uninstrumented builds, where such errors are usually silent",
     [OPS + "tf_i128/int128_kernels.cc", OPS + "aux/aux_kernels.cc", OPS + "secure_random/secure_random.cc", OPS + "dataset/write_record.cc"],
     [("kernel inner loops and allocation", OPS)],
     "AddressSanitizer and UndefinedBehaviorSanitizer builds of the kernels under generated and ill-formed workloads",
     "Exploration: the kernels are rebuilt from the tree with sanitizers and driven by the workloads of C10 and C11, multi-threaded, plus ill-formed calls. "
     "Signed overflow and left shifts are excluded because the ring relies on wrap-around; races are out of reach (TensorFlow itself is not instrumented).",
     ["sanitizer reports"])
prop("C13", "Every ring tensor type implements its ring exactly",
     "Tensors over the 8, 16, 32, 64 and 128-bit rings, the 100-bit residue ring, prime fields and bits agree with integer "
     "arithmetic modulo the ring's modulus in every operation they offer: arithmetic, comparisons, bits, truncation, matrix products and "
     "convolutions, shape operations, assignment and reading; their samplers are uniform on the ring or within the bits asked for.",
     ["inputs", "configurations"], "all ring elements, shapes, axes and operations of all tensor types",
     "tests cover a few operations of four of the types with single-digit values",
     [TEN + "native.py", TEN + "int100.py", TEN + "int128.py", TEN + "boolfactory.py", TEN + "shared.py", TEN + "helpers.py"],
     [("tensor factories", TEN)],
     "differential runtime oracle against Python integers modulo the ring, sampler statistics", "Exploration with an exact reference.",
     ["ring elements of each result"])

prop("C14", "Two-party sharing and linear operations are exact",
     "Values entering Pond by constant, variable, private, public or masked input reconstruct exactly, and addition, subtraction, "
     "negation, sums, products with unscaled operands, and every reshaping, slicing, joining, padding and pooling-layout operation "
     "return the exact ring or tensor result for every kind of operand (public, private, masked), shape, axis and fixed-point "
     "configuration; both servers always hold the same public values and masked values always fit their masks.",
     ["inputs", "configurations"], "all operand values, kinds, shapes, axes, broadcasts, four fixed-point configurations, all shares and masks drawn",
     "tests use one small shape per operation, mostly for one configuration and unmasked operands",
     [POND, TEN + "native.py", TEN + "int100.py"], [("dispatch tables for public, private and masked operands", POND)],
     "differential runtime oracle against integers modulo the ring; monitor on every Pond tensor constructed",
     "Exploration with an exact reference; the monitor checks agreement of public copies and a0 + a1 = a, alpha = x - a on each masked tensor.",
     ["ring value of results", "words of each share and mask"])
prop("C15", "Two-party fixed-point products stay within one rounding error",
     "Products, squares, matrix products, convolutions, divisions, averages, truncations and polynomial approximations in Pond return the "
     "real result within one unit in the last place per truncation, for all operands whose result is in range, whatever mix of "
     "public, private and masked operands, and however often a secret and its cached mask are reused, sliced or transposed.",
     ["inputs", "configurations", "histories"], "all in-range operands, operand kinds, reuse patterns, four fixed-point configurations, all masks drawn",
     "tests compare a few small products at a loose tolerance and reuse no cached mask across operations",
     [POND, TRI, "tf_encrypted/protocol/pond/triple_sources.py"], [("masked products", POND), ("triples", TRI)],
     "differential runtime oracle with exact rationals and propagated error bounds; monitor on every Pond tensor constructed",
     "Exploration; non-interactive truncation is used on magnitudes where it fails with probability below 2^-30.",
     ["ring value of results", "words of each share and mask"])


prop("C16", "No Pond or SecureNN party's view depends on the secrets",
     "In every supported operation of the Pond and SecureNN protocols, the values any one party (either server or the crypto producer) "
     "receives or derives - shares, masked operands, triple shares, blinded comparison bits - have a distribution that does not depend on "
     "the private operands; every mask is drawn afresh and uniformly, and no mask is used for two different values unless it is the one "
     "documented cached mask of that same value.",
     ["inputs", "schedules"], "all private operands, all random draws, every party",
     "tests look at opened results, never at what a party sees",
     [POND, SNN, TRI, ODD, "tf_encrypted/tensor/factory.py"], [("blinded comparison", SNN), ("masking", POND), ("triples", TRI)],
     "recording of every tensor on each party's device while the real protocol runs on two chosen inputs; two-sample statistical oracle on words, bits, zeros and linear combinations",
     "Statistical: detects dependence visible in marginal, per-bit, per-axis-zero and pairwise statistics; false-alarm probability per run below 1e-6.",
     ["tensors on each party's device"])

prop("C17", "SecureNN comparisons, selection, ReLU and max pooling are right",
     "SecureNN's bits, least and most significant bits, sign tests, comparisons, equality, selection, maximum, ReLU, argmax and max pooling give "
     "exactly the mathematical result on every operand inside the documented range, including ties, adjacent values, zero, extremes of "
     "the range, scalars, long vectors and every mix of public, private and masked operands, in the 64-bit and the 100-bit ring.",
     ["inputs", "configurations", "histories"], "all in-range operands, kinds, shapes, axes, both rings, all random masks",
     "tests compare a handful of small vectors with private operands",
     [SNN, ODD, POND], [("comparison", SNN), ("odd ring", ODD)],
     "differential runtime oracle with exact integer references; monitor on every tensor the protocol constructs",
     "Exploration; boundary and tie values are generated on purpose.",
     ["ring value of results"])


prop("C19", "Caching of operations is transparent",
     "Repeating, interleaving and varying operations on the same tensors, refilling or discarding operands between calls, passing numbers of "
     "different type, switching between protocol instances, mixing eager calls with compiled and re-compiled functions that use tensors of "
     "the enclosing scope, and changing returned lists never changes what an operation returns: every call gives the result it would "
     "give if nothing had been computed before.",
     ["histories", "inputs", "schedules"], "all call histories over all operations, operands, protocol instances and traced functions",
     "tests clear the cache and call each operation once per process",
     ["tf_encrypted/protocol/protocol.py", A3, POND, SNN], [("memoisation", "tf_encrypted/protocol/protocol.py"), ("cached masks", POND)],
     "differential runtime oracle (numpy) on every call of random call histories through the cache",
     "Exploration of random histories; variables are used through read_value, as documented.",
     ["opened results"])


prop("C20", "A variable reads back exactly the value of its last assignment",
     "Under ABY3, Pond and SecureNN, reading a public, private, arithmetic, boolean, scaled or unscaled variable returns exactly the ring value of the "
     "last completed initialisation or assignment, whether it came from numbers, tensors, other variables or their own former value, eagerly "
     "or in compiled functions; tensors read earlier keep their value; assigning to one variable changes no other; an "
     "assignment of another shape, share type or scaling is rejected and changes nothing.",
     ["histories", "inputs"], "all histories of initialisations, assignments, reads and rejected assignments over all kinds of variables",
     "tests initialise a few variables and assign at most once",
     [A3, POND], [("ABY3 variables", A3), ("Pond variables", POND)],
     "model-based monitor: one ring integer per element, compared after every step of random histories",
     "Exploration of random histories; variables are used through read_value, as documented.",
     ["ring values of read tensors", "exceptions raised by rejected assignments"])

prop("C21", "Compiled functions compute what the same calls compute eagerly",
     "Calling a function compiled with tfe.function - of any supported operations, with tensors, numbers, lists and keyword arguments, tensors of "
     "the enclosing scope, loops and nested results - gives the results the operations define, within their documented error, on the first "
     "and on every later call, for arguments of new values, shapes, share types and scalings, and under ABY3, Pond and SecureNN.",
     ["inputs", "histories"], "all supported operations, argument structures and sequences of calls with changing arguments",
     "tests compile a handful of functions and call each once with one set of values",
     ["tf_encrypted/protocol/protocol.py", A3, POND, SNN], [("tfe.function", "tf_encrypted/protocol/protocol.py"), ("tensor bones", POND)],
     "differential runtime oracle (exact or bounded reference per operation) on every call of a compiled function, with changing arguments",
     "Exploration; int100 tensors cannot be passed to compiled functions (TypeError) and are out of domain, except as enclosed tensors.",
     ["opened results of compiled calls"])


prop("C18", "Computing over remote players gives what computing locally gives",
     "With a RemoteConfig and one process per player started by python -m tf_encrypted.player, in any order of players, every supported operation, "
     "program, input, output, variable and compiled function of ABY3, Pond and SecureNN gives the same results as locally, within the same "
     "bounds, and each share of a private tensor is held by its own server.",
     ["inputs", "configurations", "histories"], "all supported operations, programs and player orders over clusters of player processes",
     "all tests run in one process with one device for all players; there, misplaced values go unnoticed",
     ["tf_encrypted/config.py", "tf_encrypted/player/__main__.py", A3, POND, SNN],
     [("RemoteConfig", "tf_encrypted/config.py"), ("player process", "tf_encrypted/player/__main__.py"), ("device scopes", A3)],
     "runtime oracles of the local checks plus a placement monitor, on executions over real player processes (gRPC on loopback)",
     "Exploration on the loopback network; no connection faults; clients in several processes do not share queues (TensorFlow isolates their sessions).",
     ["opened results at the client", "devices of shares"])

prop("C22", "The protocol and players in force are the ones last configured",
     "After any sequence of set_protocol, set_config and nested or exceptional with-scopes, get_protocol and every tfe operation "
     "refer to the innermost protocol in force and operations it lacks are refused; operations and compiled functions called then compute under that "
     "protocol; player look-ups return the named players in the requested order, and a saved configuration loads as the same one.",
     ["histories", "inputs"], "all sequences of scope and configuration changes, including re-entered instances and exceptions, and all host maps",
     "tests set a protocol once per process and never nest, leave by exceptions or reload configurations",
     ["tf_encrypted/__init__.py", "tf_encrypted/protocol/protocol.py", "tf_encrypted/config.py"],
     [("set_protocol", "tf_encrypted/__init__.py"), ("scopes and tfe.function", "tf_encrypted/protocol/protocol.py"), ("player look-up", "tf_encrypted/config.py")],
     "model-based monitor (stack of protocols) over random histories, result oracle on computations in between",
     "Exploration of random histories in one thread; scopes are left in reverse order of entering.",
     ["tfe.get_protocol", "bindings of tfe operations", "results", "player objects", "saved files"])

prop("C23", "Queues of shared tensors deliver each element once, intact and in order",
     "Whatever handles, threads and compiled functions use a queue of the two-party protocols at once, every enqueued tensor is dequeued exactly "
     "once, with its own two shares, in first-in first-out order, at most capacity elements are held, size tells their number, separate queues "
     "do not affect each other, tensors that do not fit are refused, and a serving client gets the result of each request in order.",
     ["schedules", "histories", "inputs"], "all interleavings of producers, consumers and servers, all histories of queue operations and handles",
     "the only test enqueues and dequeues one element",
     ["tf_encrypted/queue/fifo.py", POND, "tf_encrypted/serving/queues.py"],
     [("FIFO queue", "tf_encrypted/queue/fifo.py"), ("additive queue", POND), ("serving", "tf_encrypted/serving/queues.py")],
     "list model on sequential histories; offline checker (exactly once, order, capacity) over event logs of threads with injected delays",
     "Exploration; threads of one process; scaled 64 bit tensors (others are refused by the queue).",
     ["dequeued tensors", "queue sizes", "event log of queue operations", "served outputs"])


prop("C25", "Layers and models compute what their Keras namesakes compute",
     "For every configuration, shape, batch size and set of weights, calling a layer or a sequential model on private data reveals what the Keras "
     "layer of the same name computes on the plain data, up to the fixed-point and activation approximations; weights set are the weights used, "
     "the announced output shape is the actual one, a model rebuilt from its configuration is the same model, prediction in batches of any size "
     "equals calling the model, and arguments of the caller are left alone.",
     ["inputs", "histories"], "all layer configurations, models, weights, batch sizes",
     "tests try one or two configurations per layer, mostly square images and a batch of one",
     [KER + "layers/", KER + "models/sequential.py", KER + "engine/base_layer.py", KER + "activations.py", KER + "initializers.py"],
     [("layers", KER + "layers/"), ("sequential model", KER + "models/sequential.py")],
     "float64 references of each layer compared with runs over random configurations under seven protocol set-ups, and of random models",
     "Exploration; tolerances from error propagation; sigmoid within the domain of its polynomial.",
     ["revealed outputs", "weights", "output shapes", "predictions"])

prop("C26", "Training follows the gradients and the optimizer's rule",
     "The gradients a layer or loss returns are those of the function it computes, each optimizer changes the weights by its published rule, and fit "
     "performs, in every epoch and over every batch in order, exactly the steps that rule prescribes on the private weights - no sample skipped or "
     "used twice, frozen layers unchanged - so the trained model equals plain training up to fixed-point error; evaluation reports the loss and "
     "accuracy of the data given.",
     ["inputs", "histories"], "all layers, losses, optimizers, data sets, batch sizes and numbers of epochs",
     "tests check that the loss of one model decreases",
     [KER + "layers/", KER + "losses.py", KER + "optimizers.py", KER + "models/sequential.py", KER + "metrics.py"],
     [("backward passes", KER + "layers/"), ("optimizers", KER + "optimizers.py"), ("fit", KER + "models/sequential.py")],
     "automatic differentiation in float64 as oracle of backward passes; a float64 simulation follows the weights step by step through fits",
     "Exploration; training under ABY3, gradients of dense layers also under the two-party protocols.",
     ["revealed gradients", "revealed weights after each step", "losses and metrics"])

prop("C27", "Converted ONNX models compute, and train as, the plain model",
     "Whatever graph of supported operations a model file holds - operators with their attributes and defaults in any order, named or not, constants in "
     "any encoding, values used several times, several inputs and outputs - the converted model reveals what the plain model computes, for any batch "
     "size, and its gradients and training steps are those of the plain model; what cannot be converted is refused, never converted wrongly.",
     ["inputs", "histories"], "all graphs of supported operations, attributes, shapes and batch sizes",
     "tests convert one instance of each operation, made by one exporter",
     ["tf_encrypted/convert/convert.py", "tf_encrypted/convert/nodes.py"],
     [("converter", "tf_encrypted/convert/convert.py"), ("nodes", "tf_encrypted/convert/nodes.py")],
     "random ONNX graphs, each with a float64 reference that the ONNX evaluator confirms, compared with outputs, gradients and retrained outputs of "
     "the converted model",
     "Exploration; opset 13-17 graphs built directly, not exported by tf2onnx; tolerances from injected error propagation.",
     ["revealed outputs", "revealed gradients", "refusals"])


def emit():
    claimed = [p for p in P if os.path.exists(os.path.join(HERE, "checks", p["id"] + ".py"))]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in claimed + NA:
            o = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["tests"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                                  observe_at=p["observe"], hook_needed=None))
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(o) + "\n")
    m = dict(version=1, setup_cmd="./setup.sh",
             hooks=dict(guard="none", enable="no source hooks: monitors attach from outside (TensorFlow operation callbacks, "
                        "wrapped constructors, separate sanitizer builds)", source_commits=[]),
             checks=[dict(property=p["id"], quick_cmd="./run.sh %s quick" % p["id"], thorough_cmd="./run.sh %s thorough" % p["id"],
                          technique=p["technique"], level="exploration", level_note=p["note"]) for p in claimed],
             not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in NA])
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(claimed), "claimed")


NA = []
_na = dict(id="N01", title="Homomorphic and key-exchange primitives compute what they promise",
           statement="The stand-alone Paillier and box/easy-box primitives decrypt what they encrypt and add under encryption, for every key and message.",
           over=["inputs"], text="all keys and messages", tests="their tests do not run here",
           files=["primitives/"], mech=[("homomorphic and sodium operations", "primitives/")], observe=[],
           reason="the primitives need libraries (big-integer tensors, libsodium bindings) that are not installed here, so no execution of them can be monitored")
NA.append(_na)
if __name__ == "__main__":
    emit()
