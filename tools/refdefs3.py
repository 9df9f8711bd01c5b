G = "graph.py"
R(G, ('''    nodes_int_map = []
    for node_index, node in enumerate(graph.nodes):
        nodes_int_map.append((node, node_index))
    nodes_dict = dict(nodes_int_map)
    return nodes_dict
''', '''    return {node: index for index, node in enumerate(graph.nodes)}
'''), ('''        graph_dict = {
            **nx.readwrite.json_graph.node_link_data(graph),
            "schema": GRAPH_SCHEMA,
        }
        json.dump(graph_dict, f, indent=2)
''', '''        graph_dict = dict(nx.readwrite.json_graph.node_link_data(graph))
        graph_dict["schema"] = GRAPH_SCHEMA
        json.dump(graph_dict, f, indent=2)
'''), ('''    output_graph = nx.erdos_renyi_graph(n=num_nodes, p=edge_probability, seed=seed)
    _weight_graph_edges(output_graph, weight_sampler, seed)

    return output_graph
''', '''    graph = nx.erdos_renyi_graph(num_nodes, edge_probability, seed=seed)
    _weight_graph_edges(graph, sampler=weight_sampler, seed=seed)
    return graph
'''), ('''    if graph.is_multigraph():
        raise ValueError("Cannot deal with multigraphs")

    if seed is not None:
        random.seed(seed)

    weighted_edges = [(e[0], e[1], next(sampler)) for e in graph.edges]

    graph.add_weighted_edges_from(weighted_edges)
''', '''    if graph.is_multigraph():
        raise ValueError("Cannot deal with multigraphs")

    if seed is not None:
        random.seed(seed)

    weighted_edges = []
    for start, end in graph.edges:
        weighted_edges.append((start, end, next(sampler)))

    graph.add_weighted_edges_from(weighted_edges)
'''), ('''    type_graph = graph_specs["type_graph"]
    num_nodes = graph_specs["num_nodes"]
    if graph_specs.get("random_weights", False):
        weight_sampler = uniform_sampler(0, 1)
    else:
        weight_sampler = constant_sampler(1.0)

    seed = graph_specs.get("seed")

    if type_graph == "erdos_renyi":
        graph = generate_random_graph_erdos_renyi(
            num_nodes,
            graph_specs["probability"],
            weight_sampler,
            seed,
        )

    elif type_graph == "regular":
        degree = graph_specs["degree"]
        graph = generate_random_regular_graph(num_nodes, degree, weight_sampler, seed)

    elif type_graph == "complete":
        graph = generate_random_graph_erdos_renyi(num_nodes, 1.0, weight_sampler, seed)

    elif type_graph == "caveman":
        number_of_cliques = graph_specs["number_of_cliques"]
        size_of_cliques = graph_specs["size_of_cliques"]
        graph = generate_caveman_graph(
            number_of_cliques,
            size_of_cliques,
            weight_sampler,
            seed,
        )
''', '''    type_graph = graph_specs["type_graph"]
    num_nodes = graph_specs["num_nodes"]
    seed = graph_specs.get("seed", None)
    random_weights = graph_specs.get("random_weights", False)
    weight_sampler = uniform_sampler(0, 1) if random_weights else constant_sampler(1.0)

    if type_graph in ("erdos_renyi", "complete"):
        probability = (
            graph_specs["probability"] if type_graph == "erdos_renyi" else 1.0
        )
        graph = generate_random_graph_erdos_renyi(
            num_nodes, probability, weight_sampler, seed
        )

    elif type_graph == "regular":
        graph = generate_random_regular_graph(
            num_nodes, graph_specs["degree"], weight_sampler, seed
        )

    elif type_graph == "caveman":
        graph = generate_caveman_graph(
            number_of_cliques=graph_specs["number_of_cliques"],
            size_of_cliques=graph_specs["size_of_cliques"],
            weight_sampler=weight_sampler,
            seed=seed,
        )
'''))
U = "utils.py"
R(U, ('''    array = np.array(dictionary["real"])

    if dictionary.get("imag"):
        array = array + 1j * np.array(dictionary["imag"])

    return array
''', '''    real_part = np.array(dictionary["real"])
    imaginary = dictionary.get("imag")
    if not imaginary:
        return real_part
    return real_part + 1j * np.array(imaginary)
'''), ('''    dictionary = {}
    if np.iscomplexobj(array):
        dictionary["real"] = array.real.tolist()
        dictionary["imag"] = array.imag.tolist()
    else:
        dictionary["real"] = array.tolist()

    return dictionary
''', '''    if not np.iscomplexobj(array):
        return {"real": array.tolist()}

    return {"real": array.real.tolist(), "imag": array.imag.tolist()}
'''), ('''    bit_str = bin(number)
    bit_str = bit_str[2 : len(bit_str)]  # chop off the first two chars
    bit_string = [int(x) for x in list(bit_str)]
    if len(bit_string) < length:
        len_zeros = length - len(bit_string)
        bit_string = [int(x) for x in list(np.zeros(len_zeros))] + bit_string

    return bit_string
''', '''    bit_str = bin(number)[2:]
    bits = [int(digit) for digit in bit_str]
    n_missing = length - len(bits)
    if n_missing > 0:
        bits = [0] * n_missing + bits

    return bits
'''), ('''    dec = 0
    coeff = 1
    for i in range(len(x)):
        dec = dec + coeff * x[len(x) - 1 - i]
        coeff = coeff * 2
    return dec
''', '''    dec = 0
    coeff = 1
    for bit in reversed(x):
        dec += coeff * bit
        coeff *= 2
    return dec
'''), ('''    if not is_unitary(u1, tol):
        raise Exception("The first input matrix is not unitary.")
    if not is_unitary(u2, tol):
        raise Exception("The second input matrix is not unitary.")

    test_matrix = np.dot(u1.conj().T, u2)
''', '''    for matrix, name in ((u1, "first"), (u2, "second")):
        if not is_unitary(matrix, tol):
            raise Exception(f"The {name} input matrix is not unitary.")

    test_matrix = np.dot(u1.conj().T, u2)
'''), ('''    if isinstance(probability_distribution, dict):
        keys_as_array = np.empty(len(probability_distribution), dtype=object)
        keys_as_array[:] = list(probability_distribution.keys())

        result = np.random.choice(
            keys_as_array,
            n_samples,
            replace=True,
            p=list(probability_distribution.values()),
        )
        sampled_dict: collections.Counter = collections.Counter(result)

        return sampled_dict
    else:
        raise RuntimeError(
            "Probability distribution should be a dictionary with key value \\
        being the thing being sampled and the value being probability of getting \\
        sampled "
        )
''', '''    if not isinstance(probability_distribution, dict):
        raise RuntimeError(
            "Probability distribution should be a dictionary with key value \\
        being the thing being sampled and the value being probability of getting \\
        sampled "
        )
    events = np.empty(len(probability_distribution), dtype=object)
    events[:] = list(probability_distribution.keys())
    probabilities = list(probability_distribution.values())

    samples = np.random.choice(events, n_samples, replace=True, p=probabilities)
    return collections.Counter(samples)
'''), ('''    measurements: List[Tuple[int, ...]] = []
    for bitstring in bitstrings:

        measurement: Tuple[int, ...] = ()
        for char in bitstring:
            measurement = measurement + (int(char),)

        measurements.append(measurement)
    return measurements
''', '''    return [tuple(int(char) for char in bitstring) for bitstring in bitstrings]
'''), ('''    bitstrings = ["".join(map(str, tup)) for tup in tuples]
    return bitstrings
''', '''    bitstrings = []
    for tup in tuples:
        bitstrings.append("".join(str(bit) for bit in tup))
    return bitstrings
'''), ('''        super_eq = super().__eq__(other)
        if super_eq is NotImplemented:
            return super_eq
        return super_eq and self.precision == getattr(other, "precision", None)
''', '''        values_equal = super().__eq__(other)
        if values_equal is NotImplemented:
            return NotImplemented
        other_precision = getattr(other, "precision", None)
        return values_equal and self.precision == other_precision
'''), ('''        value_str = super().__str__()
        if self.precision is not None:
            return f"{value_str} ± {self.precision}"
        else:
            return f"{value_str}"
''', '''        value_str = super().__str__()
        if self.precision is None:
            return value_str
        return value_str + f" ± {self.precision}"
'''), ('''        data = {"schema": SCHEMA_VERSION + "-value_estimate"}
        if type(self.value).__module__ == np.__name__:
            data["value"] = self.value.item()
        else:
            data["value"] = self.value

        if type(self.precision).__module__ == np.__name__:
            data["precision"] = self.precision.item()
        else:
            data["precision"] = self.precision

        return data
''', '''        def to_python(number):
            if type(number).__module__ == np.__name__:
                return number.item()
            return number

        return {
            "schema": SCHEMA_VERSION + "-value_estimate",
            "value": to_python(self.value),
            "precision": to_python(self.precision),
        }
'''), ('''        value = dictionary["value"]
        if "precision" in dictionary:
            precision = dictionary["precision"]
            return cls(value, precision)
        else:
            return cls(value)
''', '''        return cls(dictionary["value"], dictionary.get("precision"))
'''), ('''    dictionary: Dict[str, Any] = {}
    dictionary["schema"] = SCHEMA_VERSION + "-" + artifact_name + "-list"
    dictionary["list"] = array

    with open(filename, "w") as f:
        f.write(json.dumps(dictionary, indent=2))
''', '''    dictionary = {"schema": f"{SCHEMA_VERSION}-{artifact_name}-list", "list": array}

    with open(filename, "w") as f:
        f.write(json.dumps(dictionary, indent=2))
'''), ('''    dictionary_stored = {"schema": SCHEMA_VERSION + "-dict"}
    dictionary_stored.update(dictionary)
''', '''    dictionary_stored = {"schema": SCHEMA_VERSION + "-dict", **dictionary}
'''), ('''    for key in specs.keys():
        if key in kwargs.keys():
            raise ValueError("Cannot have same parameter assigned to multiple values")

    if isinstance(creator, FunctionType):
        if kwargs != {} or specs != {}:
            function_parameter_names = inspect.signature(creator).parameters.keys()
            function_args = {
                key: value
                for key, value in {**specs, **kwargs}.items()
                if key in function_parameter_names
            }
            return partial(creator, **function_args)
        else:
            return creator
    else:
        return creator(**specs, **kwargs)
''', '''    if any(key in kwargs for key in specs):
        raise ValueError("Cannot have same parameter assigned to multiple values")

    if not isinstance(creator, FunctionType):
        return creator(**specs, **kwargs)

    if kwargs == {} and specs == {}:
        return creator

    parameter_names = inspect.signature(creator).parameters.keys()
    function_args = {}
    for key, value in {**specs, **kwargs}.items():
        if key in parameter_names:
            function_args[key] = value
    return partial(creator, **function_args)
'''), ('''    return {symbol: param for symbol, param in zip(symbols, params.tolist())}
''', '''    return dict(zip(symbols, params.tolist()))
'''))
