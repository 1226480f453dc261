import json
P=[]
def p(id,title,statement,over,text,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
p("C01","Tabulation of a FIAT-backed element equals the reference basis everywhere",
"Evaluating the basis of any non-composite element at any set of points, on the cell or on any of its facets, edges or vertices, returns exactly the values and all partial derivatives, up to the requested order, of the corresponding reference element's basis functions at those points. The result is the same whether the points are given as one array, a tensor product of arrays or a single point, and whichever order of derivative is requested. Metadata such as space dimension, value shape, degree, form degree, mapping and cell agree with the reference element.",
["inputs","configurations"],"every supported family, degree, variant and cell; every sub-entity; every point set and derivative order",
"Tests sample a few elements at one or two quadrature rules; the special cases (zero derivatives above the degree, constant tables, entity embedding, tensor-valued families) fork on degree, order, entity and point-set kind.",
["finat/fiat_elements.py","finat/finiteelementbase.py"],
[("FiatElement.basis_evaluation","finat/fiat_elements.py"),("entity_support_dofs","finat/finiteelementbase.py")])
p("C02","Symbolic point evaluation agrees with tabulation",
"Evaluating a basis at a symbolic runtime point gives, for every value of that point and every derivative order, the same numbers as tabulating at that concrete point, on the cell and on each of its lower-dimensional entities. This holds for simple elements and for tensor-product, flattened, enriched, mixed, vector- and tensor-valued and H(div)/H(curl) elements built from them, with the same multi-index keys and shape.",
["inputs","configurations"],"all runtime points, entities, derivative orders and element constructions",
"The symbolic path is separate code (compiled from symbolic polynomials); the tests check a handful of families at a few random points on the cell interior.",
["finat/fiat_elements.py","finat/tensor_product.py","finat/cube.py","finat/sympy2gem.py"],
[("point_evaluation_fiat / point_evaluation","finat/fiat_elements.py"),("TensorProductElement.point_evaluation","finat/tensor_product.py")])
p("C03","Tensor-product and flattened elements are products of their factors",
"For every tensor product of elements, each basis function indexed by one index per factor is the product of the factor basis functions, each evaluated on its own coordinates, and each derivative is the product of the factor derivatives; entity numbering, degree-of-freedom counts, degrees and form degree follow from the factors in the same order. The flattened quadrilateral/hexahedron version tabulates identically and merges the entity dimensions without loss or duplication.",
["inputs","configurations"],"all tuples of factors (including vector-valued and nested), entities, derivative orders and tensor or plain point sets",
"Factorised, collapsed and single-factor evaluation paths are chosen by the shape of the point set; tests cover a few scalar combinations with one rule.",
["finat/tensor_product.py","finat/cube.py"],
[("TensorProductElement._factor_entity / _merge_evaluations / factor_point_set","finat/tensor_product.py"),("FlattenedDimensions","finat/cube.py")])
p("C04","Enriched and mixed elements are the exact direct sum of their summands",
"Tabulating an enriched element yields exactly its summands' basis functions concatenated in order, and a mixed element places each sub-element's functions in its own block of value components with zeros elsewhere. Degree-of-freedom layout, space dimension, degrees and mapping are the correspondingly combined ones, and incompatible summands are refused.",
["inputs","configurations"],"all lists of compatible elements (nested, tensor-valued, differing degrees), points, entities and derivative orders",
"Only a few enriched elements are tabulated by tests; offsets and component padding depend on the whole list of summands.",
["finat/enriched.py","finat/mixed.py","finat/nodal_enriched.py"],
[("EnrichedElement.basis_evaluation / _compose_evaluations","finat/enriched.py"),("MixedElement / MixedSubElement","finat/mixed.py")])
p("C05","Vector and tensor elements replicate the scalar basis per component",
"A vector or tensor element of a given shape has one copy of each scalar basis function for every component: the value of the function with scalar index i and component index c is the scalar function i in component c and zero in all others, for values and all derivatives. The layout is unchanged, apart from index order, when the component index is placed first, and entity numbering refers to the scalar nodes while dimensions multiply.",
["inputs","configurations"],"all base elements, tensor shapes, both index orders, points, entities and derivative orders",
"Tests check one or two shapes on a single simplex element.",
["finat/tensorfiniteelement.py"],
[("TensorFiniteElement._tensorise","finat/tensorfiniteelement.py")])
p("C06","H(div) and H(curl) elements built on product cells are conforming bases",
"Turning a product element into an H(div) or H(curl) element lifts each basis function to a vector field in the direction prescribed by the form degrees of its factors, so that the degrees of freedom on a facet carry exactly the normal (tangential) component there and all others have none. Values and derivatives equal those of the independently built reference element for the same space, and factors whose form degree does not fit are refused.",
["inputs","configurations"],"all factor pairs with admissible form degrees, nested products, cells, entities, points and derivative orders",
"Tests do not evaluate these wrappers at all except through downstream tools; signs and rotations differ for each combination of form degrees.",
["finat/hdivcurl.py"],
[("select_hdiv_transformer / select_hcurl_transformer","finat/hdivcurl.py")])
p("C07","Degrees of freedom partition over entities and their supports are exact",
"For every element, the degrees of freedom attached to the entities of the cell partition the full set 0..n-1, the closure of an entity collects exactly those attached to it and to its sub-entities, and the support set of an entity contains exactly those whose functions do not vanish there. Discontinuous versions keep the basis functions but attach every degree of freedom to the cell interior.",
["configurations"],"every element construction, degree and cell; every entity",
"Assembly, boundary conditions and numbering in user codes rely on this for all elements; tests look at a few low degrees.",
["finat/finiteelementbase.py","finat/discontinuous.py","finat/fiat_elements.py","finat/cube.py","finat/tensor_product.py","finat/enriched.py"],
[("entity_dofs / entity_closure_dofs / entity_support_dofs","finat/finiteelementbase.py"),("DiscontinuousElement","finat/discontinuous.py")])
p("C08","Permutation tables for cell orientations match the geometry of the nodes",
"For every orientation of every entity, the element's permutation table maps each degree of freedom of the entity to the one at the same physical location when the entity is seen in that orientation; orientation zero is the identity and every table is a permutation of the entity's degrees of freedom. Composite elements combine the tables of their parts consistently (products over the combined orientation numbering, sums block by block), and elements without such tables say so explicitly.",
["configurations"],"all elements providing tables, all entities and orientations, including products with interchangeable axes",
"Hundreds of orientations exist for a hexahedral cell; tests check a few low-order tables against literals.",
["finat/tensor_product.py","finat/cube.py","finat/enriched.py","finat/finiteelementbase.py"],
[("compose_permutations","finat/tensor_product.py"),("FlattenedDimensions.entity_permutations","finat/cube.py"),("concatenate_entity_permutations","finat/enriched.py")])
p("C09","Dual evaluation is the exact inverse of the basis",
"Applying the dual basis of an element to each of its own basis functions yields the identity matrix, and applying it to any other function yields the values of the reference degrees of freedom on that function. This holds for scalar, vector-valued, tensor-product and component-wise elements, with or without free arguments in the function, with the result indexed by the element's own index shape. For elements that depend on the physical cell the dual basis is that of the reference cell; those with derivative nodes, or with fewer functions than the reference element has nodes, have none and say so.",
["inputs","configurations"],"all elements with a dual basis and all functions, including those carrying extra free indices",
"Tests only check interpolation for one or two families; sparse and dense dual representations and point-set factorisation take different paths.",
["finat/finiteelementbase.py","finat/fiat_elements.py","finat/tensor_product.py","finat/tensorfiniteelement.py","finat/cube.py","finat/quadrature_element.py","finat/enriched.py"],
[("FiniteElementBase.dual_evaluation","finat/finiteelementbase.py"),("FiatElement._dual_basis / dual_basis","finat/fiat_elements.py"),("TensorProductElement.dual_basis","finat/tensor_product.py")])
p("C10","Physically mapped elements reproduce the nodal basis of the physical cell",
"For every affine physical cell of any shape, orientation or reflection, the transformed reference basis of a physically mapped element, pushed forward to the cell, equals the basis defined by applying the element's degrees of freedom directly on the physical cell (with unit length scales). Derivatives and evaluation on facets use the same transformation.",
["inputs","configurations"],"every physically mapped family, degree and variant; every non-degenerate physical cell; every point",
"Tests use one or two fixed cells per family; sign, ordering and scaling mistakes cancel on such cells.",
["finat/physically_mapped.py","finat/argyris.py","finat/bell.py","finat/hermite.py","finat/morley.py","finat/hct.py","finat/powell_sabin.py","finat/aw.py","finat/hz.py","finat/johnson_mercier.py","finat/mtw.py","finat/piola_mapped.py","finat/bernardi_raugel.py","finat/guzman_neilan.py","finat/christiansen_hu.py","finat/alfeld_sorokina.py","finat/arnold_qin.py"],
[("basis_transformation","finat/*.py"),("PhysicallyMappedElement.map_tabulation","finat/physically_mapped.py")])
p("C11","Neighbouring cells agree on shared degrees of freedom",
"On two cells that share a facet, with vertices numbered consistently, functions assembled from equal coefficients on shared degrees of freedom have the continuity the element promises across that facet: values, normal or tangential components, normal-normal components, or gradients, for any cell shapes, any length scales and either orientation of each cell. This holds for physically mapped and plain conforming elements.",
["inputs","configurations"],"every conforming family; every pair of cells sharing a facet; every numbering of the patch; every length scale field",
"Tests look at one cell at a time; global sign and direction conventions only matter when two cells meet.",
["finat/physically_mapped.py","finat/argyris.py","finat/aw.py","finat/piola_mapped.py"],
[("physical_normals / physical_tangents / physical_edge_lengths use","finat/*.py")])
p("C12","Length scales rescale physically mapped bases without changing the space",
"Changing the characteristic length at the cell's vertices multiplies each transformed basis function by one positive factor, leaves value degrees of freedom unscaled, and gives derivative degrees of freedom at a vertex the inverse power of that vertex's length matching the order of the derivative (stresses at vertices take the inverse square); edge degrees of freedom that are scaled (Morley, point-variant Argyris) use the mean of the lengths at the edge's two end points. No other entry of the transformation depends on these lengths.",
["inputs","configurations"],"all physically mapped families that use length scales, all positive length-scale fields, all cells",
"Tests fix one mesh-size value; wrong vertex, wrong power or missing scaling cannot be seen with uniform lengths.",
["finat/argyris.py","finat/bell.py","finat/hermite.py","finat/morley.py","finat/hct.py","finat/powell_sabin.py","finat/aw.py","finat/hz.py"],
[("cell_size scaling in basis_transformation","finat/*.py")])
p("C13","Direct serendipity elements span complete polynomials on convex quadrilaterals",
"For every convex quadrilateral and every degree, the direct serendipity functions are linearly independent, reproduce every physical polynomial up to that degree, and those attached to one side or vertex vanish on the sides that do not contain it. On a side they are polynomials, nodal at equispaced points, so that neighbouring cells agree. Derivatives are consistent with the values.",
["inputs","configurations"],"all convex quadrilaterals, degrees and points",
"Tests use one quadrilateral per degree and check the interpolation error only.",
["finat/direct_serendipity.py"],
[("ds_sym / ds1_sym / dsr_sym","finat/direct_serendipity.py"),("DirectSerendipity.basis_evaluation","finat/direct_serendipity.py")])
p("C14","Quadrature rules are exact to their requested degree on every cell",
"A quadrature rule created for any cell and degree has points inside the cell and integrates every polynomial of total degree (per-direction degree on product cells) up to the request exactly, with weights summing to the cell's volume. The expression of the weights has the same free indices as the points. Invalid degrees, schemes and mismatched points and weights are refused.",
["inputs","configurations"],"all cells, sub-cells, product cells, degrees, degree tuples, schemes and polynomials",
"Tests cover few degrees and cells; the rule chosen switches with degree, cell and scheme.",
["finat/quadrature.py"],
[("make_quadrature","finat/quadrature.py"),("TensorProductQuadratureRule / QuadratureRule","finat/quadrature.py")])
p("C15","Point sets and quadrature elements preserve points, order and indices",
"The symbolic expression of any point set enumerates exactly its stored points in the order of its free indices, tensor point sets enumerate the Cartesian product with the last factor fastest, and quadrature elements tabulate to the identity at their own points, weighting their dual by point evaluation there. One point set or rule may be a factor of a product any number of times. Evaluating a quadrature element at other points or with derivatives is refused.",
["inputs","configurations"],"all point arrays, nested tensor products, approximate coincidences and quadrature rules",
"Tests check a single rule; index reuse and point ordering only show for mixed, nested, differently sized factors.",
["finat/point_set.py","finat/quadrature_element.py"],
[("PointSet / TensorPointSet / almost_equal","finat/point_set.py"),("QuadratureElement.basis_evaluation / dual_basis","finat/quadrature_element.py")])
p("C16","Restricted elements keep exactly the requested degrees of freedom",
"Restricting an element to the interior, facets or a chosen set of entities keeps exactly the basis functions attached there, unchanged in value and in their order within each entity, renumbered contiguously; complementary restrictions together give back the whole element. Composite elements are restricted consistently with restricting the equivalent plain element, and unsupported or empty restrictions are refused.",
["inputs","configurations"],"all elements, restriction domains, cells, points and derivative orders",
"Tests compare a few interior/facet combinations; each composite type has its own rule to distribute the restriction over its parts.",
["finat/restricted.py"],
[("restrict and its singledispatch cases, r_to_codim / codim_to_r","finat/restricted.py")])
p("C17","Spectral elements tabulate to the identity at their own nodes",
"Tabulating a spectral element at its own quadrature or interpolation nodes yields exactly the identity (not merely approximately), while any other points, including slightly different, permuted or fewer ones, give the true basis values. The shortcut never changes derivatives or the result on sub-entities.",
["inputs","configurations"],"all degrees, spectral variants, point sets near or equal to the nodes, product elements and entities",
"Tests only use the exact matching rule; the danger is a false match on similar points.",
["finat/spectral.py"],
[("GaussLobattoLegendre.basis_evaluation / GaussLegendre.basis_evaluation","finat/spectral.py")])
p("C18","Translation of symbolic algebra preserves values",
"Translating any supported symbolic expression into the tensor-algebra language gives an expression with the same value at every assignment of its variables, including piecewise, conditional, comparison, logical, rational, absolute-value and power sub-expressions; where no piece of a piecewise expression applies the value is not a number. Unsupported expressions, such as transcendental functions, are refused rather than mistranslated.",
["programs","inputs"],"all expression trees over the supported node types (both symbolic back ends) and all variable values",
"There is no direct test; only the shapes of expression that the tested elements happen to produce are covered.",
["finat/sympy2gem.py"],
[("sympy2gem singledispatch","finat/sympy2gem.py")])
p("C19","Symbolic element equality, hashing, printing and pickling are consistent",
"Two symbolic element descriptions built the same way compare equal, hash equal and print the same representation, distinct ones (family, cell, degree, variant, scheme, shape, symmetry, mapping, sub-elements) never compare equal, and a description survives pickling (protocol 2 or later) and copying unchanged, also across processes. Equality is an equivalence relation that agrees with the representation and the ordering.",
["programs","histories"],"all element description trees",
"User codes cache compiled kernels by these keys; tests compare a few literal elements.",
["finat/ufl/finiteelementbase.py","finat/ufl/finiteelement.py","finat/ufl/mixedelement.py","finat/ufl/tensorproductelement.py","finat/ufl/enrichedelement.py","finat/ufl/restrictedelement.py","finat/ufl/brokenelement.py","finat/ufl/hdivcurl.py"],
[("__repr__ / __eq__ / __hash__ / __lt__","finat/ufl/finiteelementbase.py")])
p("C20","Symbolic element names and metadata describe the element they denote",
"Every accepted spelling of a family (alias, short name, exterior-calculus notation, periodic-table notation) resolves to one canonical family, degree and value shape, and what it declares is true of the concrete element it denotes: value shape and mapping agree, the embedded superdegree bounds the polynomial degree of the basis, a description declared cell-wise constant is constant, and (families that are nonconforming by definition aside) the traces that the declared function space needs to be single-valued are determined by the nodes of the facet. Invalid families, cells and degrees are refused.",
["configurations"],"all registered families and aliases, cells, degrees, form degrees and variants",
"The table has over a hundred entries and alias functions; tests check a sample of names.",
["finat/ufl/elementlist.py","finat/ufl/finiteelement.py"],
[("canonical_element_description / feec_element / aliases","finat/ufl/elementlist.py")])
p("C21","Symbolic mixed, vector and tensor elements have consistent shapes and components",
"The value shapes and sizes, flattened sub-elements and symmetry maps of mixed, vector and tensor element descriptions agree with their parts: sizes add over sub-elements, symmetric components share one sub-element, and looking up the sub-element responsible for a component gives the sub-element that component belongs to. Inconsistent shapes, indices out of range or cells are refused.",
["programs","inputs"],"all nestings of mixed, vector, tensor, symmetric and simple descriptions; all component indices",
"Tests cover literal shapes; the lookup arithmetic depends on the whole nesting.",
["finat/ufl/mixedelement.py","finat/ufl/finiteelementbase.py"],
[("MixedElement / VectorElement / TensorElement","finat/ufl/mixedelement.py")])
p("C22","Rebuilding a symbolic element changes only what was asked",
"Rebuilding a description with a new family, cell, degree, variant, scheme or mapping yields exactly the description that would be built directly with those values, throughout all nested parts; rebuilding with no changes yields an equal description. The original is never altered.",
["programs"],"all description trees and all sets of changed attributes",
"Each description type forwards attributes on its own; tests hardly exercise it.",
["finat/ufl/finiteelement.py","finat/ufl/mixedelement.py","finat/ufl/tensorproductelement.py","finat/ufl/enrichedelement.py","finat/ufl/restrictedelement.py","finat/ufl/brokenelement.py","finat/ufl/hdivcurl.py"],
[("reconstruct","finat/ufl/*.py")])
p("C23","Symbolic product, enriched and wrapped elements combine their parts' metadata",
"Operators and constructors that combine descriptions (product, sum, restriction, breaking, interior/facet, H(div)/H(curl), mapping override) produce descriptions whose cell, degree, embedded degrees, function space, mapping and value shape are the ones implied by the parts, with product-cell families split into the equivalent interval factors. Breaking gives a discontinuous space and restriction a trace-like one without altering shape or degree. Sums of parts on different cells, of different shapes or with different quadrature schemes are refused, whichever part it is that does not fit.",
["programs"],"all combinations of constructors and operators on all description trees",
"Tests evaluate a handful of expressions; the rules interact when constructors nest.",
["finat/ufl/tensorproductelement.py","finat/ufl/enrichedelement.py","finat/ufl/brokenelement.py","finat/ufl/restrictedelement.py","finat/ufl/hdivcurl.py","finat/ufl/finiteelement.py","finat/ufl/finiteelementbase.py"],
[("TensorProductElement / EnrichedElement / FiniteElement.__new__","finat/ufl/*.py")])
p("C24","Runtime-tabulated elements expose one correctly shaped, consistently named table",
"For a runtime-tabulated element, each requested derivative at a one-dimensional point set yields a table indexed by point and basis function whose run-time variable is determined only by the element's variant, degree, continuity, shift of axes and side restriction and by the derivative, so equal requests share it and different ones never collide. Unsupported cells, malformed constructor arguments, and queries that need the unknown basis (layout, closure, dual, evaluation at symbolic points) are refused.",
["inputs","configurations","histories"],"all variants, degrees, orders, restrictions, continuity flags and point sets",
"No test covers this element; collisions only show between pairs of requests.",
["finat/runtime_tabulated.py"],
[("RuntimeTabulated.basis_evaluation","finat/runtime_tabulated.py")])
p("C25","The plain reference equivalent of a composite has the same basis",
"Whenever a composite element offers an equivalent plain reference element, the two have the same number of basis functions, the same entity layout (up to the flattening of the index) and the same values and derivatives at every point. Elements with no equivalent refuse to provide one.",
["inputs","configurations"],"all composites with an equivalent, points, entities and derivative orders",
"Tests never compare the equivalent with the element itself.",
["finat/cube.py","finat/tensor_product.py","finat/enriched.py","finat/mixed.py","finat/hdivcurl.py","finat/discontinuous.py","finat/quadrature_element.py","finat/nodal_enriched.py"],
[("fiat_equivalent","finat/*.py")])
p("C26","Evaluation does not depend on what was evaluated before",
"The result of any query of an element (tabulation, symbolic evaluation, dual, layout, permutation tables) depends only on its arguments: repeating a query, or interleaving it with others on the same or equal elements, never changes later results. Results share no free indices beyond the point set's own.",
["histories"],"all interleavings of queries on shared and separately constructed elements",
"Caching is used throughout (properties computed once, compiled evaluations reused); tests build a new element for each assertion.",
["finat/finiteelementbase.py","finat/fiat_elements.py","finat/cube.py","finat/tensor_product.py","finat/point_set.py"],
[("cached_property and caches","finat/*.py")])
p("C27","Nodal enrichment gives the basis dual to its parts' nodes",
"A nodal enriched element has, for parts given in some order, the basis that spans the sum of the parts' function spaces and is dual to the degrees of freedom of the parts taken in that order: applying any part's node to the functions gives one for its own function and zero for all others. Its layout over entities is that of the parts one after another. Parts on different cells, with different value shapes, or whose nodes do not determine the sum are refused.",
["inputs"],"all lists of compatible parts, in any order",
"No repository test builds one; the reordering and the duality cannot be seen from dimensions alone.",
["finat/nodal_enriched.py","finat/fiat_elements.py"],
[("class NodalEnrichedElement","finat/nodal_enriched.py")])
p("C28","Expressions of composites keep the product structure (sum factorisation)",
"Evaluated at points that are a product of point sets, composite elements give expressions built from tables of the single factors: no constant array in the basis evaluation, in the weights of a dual basis or in the weights of a quadrature rule on a product of cells has more entries than the largest table of one factor at that factor's points, whatever the nesting of sums, component-wise copies, wrappers and products. Derivatives that exhaust the degree of a factor on a simplex do not depend on its points. Spectral elements and quadrature elements evaluated at their own nodes, recognised by the point set, need no table at all. Dual points of products are products of the factors' dual points.",
["inputs","configurations"],"all composites, point sets with and without product structure, entities and derivative orders",
"The values are right either way, so value tests pass with the structure lost; it fails only for particular numbers of factors, shapes, orders or degrees.",
["finat/tensor_product.py","finat/fiat_elements.py","finat/tensorfiniteelement.py","finat/spectral.py","finat/quadrature.py","finat/quadrature_element.py","finat/point_set.py","finat/hdivcurl.py","finat/enriched.py","finat/mixed.py","finat/cube.py"],
[("factor_point_set","finat/tensor_product.py"),("FiatElement.basis_evaluation","finat/fiat_elements.py"),("GaussLobattoLegendre.basis_evaluation","finat/spectral.py"),("TensorProductQuadratureRule","finat/quadrature.py")])
p("C29","Impossible constructions and requests are refused",
"What cannot be answered is refused with an exception and never answered with something else: points of the wrong dimension for the cell or entity, entities that do not exist, elements that depend on the physical cell evaluated without its geometry, sums of elements on different cells or with different value shapes, products of two vector-valued factors, H(div) and H(curl) forms of products whose form degrees do not allow them, flattening of elements on other cells or with different degrees in the directions, dual evaluation of functions of the wrong shape, and quadrature rules for cells or degrees that have none.",
["inputs","configurations"],"every element and every malformed or unsupported construction or request",
"Tests check a few refusals with fixed arguments; a check that misses a particular shape, cell, entity or order lets a wrong answer through.",
["finat/tensor_product.py","finat/hdivcurl.py","finat/enriched.py","finat/mixed.py","finat/cube.py","finat/physically_mapped.py","finat/piola_mapped.py","finat/quadrature.py","finat/restricted.py","finat/argyris.py","finat/direct_serendipity.py","finat/fiat_elements.py","finat/finiteelementbase.py"],
[("FlattenedDimensions","finat/cube.py"),("HDivElement / HCurlElement","finat/hdivcurl.py"),("EnrichedElement","finat/enriched.py"),("MixedSubElement","finat/mixed.py"),("make_quadrature","finat/quadrature.py")])
p("C30","The answers are the same in every process",
"Everything an element answers is the same in every process and for every order of requests: the expressions of tables, symbolic tables and dual bases (their structure, with indices numbered in order of appearance, and the constants in them), layouts, supports, permutations, degrees, complexes and quadrature rules, including the order of entries in dictionaries, and which requests are refused. The same holds for what symbolic elements answer. Nothing depends on hash values, object identities or what was asked before.",
["inputs","histories","configurations"],"all elements and requests; all hash seeds, memory layouts and orders of requests",
"Tests run in one process with one hash seed; parallel programs need all processes to generate the same code and wait for each other for ever if they do not.",
["finat/enriched.py","finat/fiat_elements.py","finat/tensor_product.py","finat/finiteelementbase.py","finat/physically_mapped.py","finat/point_set.py","finat/quadrature.py","finat/ufl/"],
[("EnrichedElement.complex","finat/enriched.py"),("FiatElement._dual_basis","finat/fiat_elements.py"),("cached properties","finat/*.py")])
p("C31","The families of exterior calculus form exact complexes",
"Where FInAT offers the families of finite element exterior calculus for forms of degree 0 to n on a cell (P and P- families with any choice of first or second kind for each arrow, tensor-product, serendipity and trimmed serendipity families, and products of these with intervals through the H(div) and H(curl) elements), the derivative (gradient, curl, divergence) of every function of one element lies in the span of the next one, and the sequence is exact: every function without derivative is the derivative of one of the previous space, save for constants at the start. Each element reports the degree of its forms. The same exactness holds for the functions whose degrees of freedom are not on the closure of any one facet, and, save for constants at the end, of the whole boundary; on the closure of every entity the numbers of degrees of freedom are those of an exact sequence.",
["inputs","configurations"],"all families, degrees, variants and choices of kinds, all factors of products, all facets",
"Discretisations of Maxwell's, Darcy's and flow problems are stable because of this and nothing in the tests relates one element to another; an element may be a perfectly good basis of a wrong space, or have its functions numbered on wrong entities, and pass every test of its own.",
["finat/hdivcurl.py","finat/tensor_product.py","finat/cube.py","finat/enriched.py","finat/fiat_elements.py","finat/spectral.py"],
[("select_hdiv_transformer / select_hcurl_transformer","finat/hdivcurl.py"),("entity_dofs","finat/tensor_product.py")])
p("C32","Integrals assembled from tables and rules are exact",
"An integral over a cell or one of its entities of products of basis functions of one or two elements (values or derivatives, components or inner products), and of functions given by their coefficients, assembled as an expression from the elements' tables and a sufficient quadrature rule equals the exact integral (with any rule, the rule's own sum), entry by entry in the elements' own index order. The same element may be used twice, with the tables on two entities of the same kind. The expression has no free indices besides those of its arguments, and the transformations that compilers apply to it (contraction, splitting of concatenations, expansion into monomials, elimination of deltas, factorisation of sums) do not change the result.",
["inputs","configurations"],"all elements in pairs, cells, entities, derivatives, rules and transformations",
"It is what every form compiler does with the tables: an index shared between two tables, or an expression that is right as it stands but not after the usual transformations, does not show when tables are looked at one by one, and the tests assemble a handful of operators.",
["finat/finiteelementbase.py","finat/fiat_elements.py","finat/tensor_product.py","finat/enriched.py","finat/tensorfiniteelement.py","finat/spectral.py","finat/quadrature.py","finat/quadrature_element.py"],
[("basis_evaluation","finat/tensor_product.py"),("weight_expression","finat/quadrature.py"),("get_indices","finat/finiteelementbase.py")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(q)+"\n" for q in P))
