"""Functions of the reference tree (frozen). A function not listed is a helper
introduced by a later edit and is always analysed inline."""
BASELINE_FUNCTIONS = frozenset("""
gpkit.build.CVXopt.look
gpkit.build.MosekCLI.look
gpkit.build.MosekCLI.run
gpkit.build.MosekConif.look
gpkit.build.SolverBackend.__init__
gpkit.build.build
gpkit.build.call
gpkit.build.diff
gpkit.build.isfile
gpkit.build.log
gpkit.build.pathjoin
gpkit.build.replacedir
gpkit.constraints.array.ArrayConstraint.__bool__
gpkit.constraints.array.ArrayConstraint.__init__
gpkit.constraints.array.ArrayConstraint.__iter__
gpkit.constraints.array.ArrayConstraint.lines_without
gpkit.constraints.bounded.Bounded.__init__
gpkit.constraints.bounded.Bounded.check_boundaries
gpkit.constraints.bounded.Bounded.process_result
gpkit.constraints.bounded.varkey_bounds
gpkit.constraints.costed.CostedConstraintSet.__init__
gpkit.constraints.costed.CostedConstraintSet._rootlatex
gpkit.constraints.costed.CostedConstraintSet._rootlines
gpkit.constraints.costed.CostedConstraintSet.constrained_varkeys
gpkit.constraints.gp.GeometricProgram.__init__
gpkit.constraints.gp.GeometricProgram._compile_result
gpkit.constraints.gp.GeometricProgram._generate_nula
gpkit.constraints.gp.GeometricProgram.check_bounds
gpkit.constraints.gp.GeometricProgram.check_solution
gpkit.constraints.gp.GeometricProgram.check_solution.<locals>.almost_equal
gpkit.constraints.gp.GeometricProgram.gen
gpkit.constraints.gp.GeometricProgram.generate_result
gpkit.constraints.gp.GeometricProgram.result
gpkit.constraints.gp.GeometricProgram.solve
gpkit.constraints.gp.MonoEqualityIndexes.__init__
gpkit.constraints.gp._get_solver
gpkit.constraints.gp.fulfill_meq_bounds
gpkit.constraints.gp.gen_meq_bounds
gpkit.constraints.loose.Loose.__init__
gpkit.constraints.loose.Loose.process_result
gpkit.constraints.model.Model.__init__
gpkit.constraints.model.Model.autosweep
gpkit.constraints.model.Model.debug
gpkit.constraints.model.Model.sweep
gpkit.constraints.model.Model.verify_docstring
gpkit.constraints.prog_factories.evaluate_linked
gpkit.constraints.prog_factories.progify
gpkit.constraints.prog_factories.progify.<locals>.programfn
gpkit.constraints.prog_factories.run_sweep
gpkit.constraints.prog_factories.solvify
gpkit.constraints.prog_factories.solvify.<locals>.solvefn
gpkit.constraints.relax.ConstantsRelaxed.__init__
gpkit.constraints.relax.ConstantsRelaxed.check_relaxed
gpkit.constraints.relax.ConstantsRelaxed.process_result
gpkit.constraints.relax.ConstraintsRelaxed.__init__
gpkit.constraints.relax.ConstraintsRelaxed.check_relaxed
gpkit.constraints.relax.ConstraintsRelaxed.process_result
gpkit.constraints.relax.ConstraintsRelaxedEqually.__init__
gpkit.constraints.relax.ConstraintsRelaxedEqually.check_relaxed
gpkit.constraints.relax.ConstraintsRelaxedEqually.process_result
gpkit.constraints.relax.get_relaxed
gpkit.constraints.set.ConstraintSet.__getitem__
gpkit.constraints.set.ConstraintSet.__init__
gpkit.constraints.set.ConstraintSet.__repr__
gpkit.constraints.set.ConstraintSet._choosevar
gpkit.constraints.set.ConstraintSet._update
gpkit.constraints.set.ConstraintSet.as_hmapslt1
gpkit.constraints.set.ConstraintSet.as_view
gpkit.constraints.set.ConstraintSet.constrained_varkeys
gpkit.constraints.set.ConstraintSet.latex
gpkit.constraints.set.ConstraintSet.lines_without
gpkit.constraints.set.ConstraintSet.name_collision_varkeys
gpkit.constraints.set.ConstraintSet.process_result
gpkit.constraints.set.ConstraintSet.str_without
gpkit.constraints.set.ConstraintSet.variables_byname
gpkit.constraints.set.ConstraintSet.varkeys
gpkit.constraints.set.ConstraintSetView.__getattr__
gpkit.constraints.set.ConstraintSetView.__getitem__
gpkit.constraints.set.ConstraintSetView.__init__
gpkit.constraints.set._sort_by_name_and_idx
gpkit.constraints.set._sort_constraints
gpkit.constraints.set.add_meq_bounds
gpkit.constraints.set.badelement
gpkit.constraints.set.flatiter
gpkit.constraints.set.recursively_line
gpkit.constraints.set.sort_constraints_dict
gpkit.constraints.sgp.SequentialGeometricProgram.__init__
gpkit.constraints.sgp.SequentialGeometricProgram.gp
gpkit.constraints.sgp.SequentialGeometricProgram.localsolve
gpkit.constraints.sgp.SequentialGeometricProgram.results
gpkit.constraints.sigeq.SignomialEquality.__init__
gpkit.constraints.single_equation.SingleEquationConstraint.__init__
gpkit.constraints.single_equation.SingleEquationConstraint.latex
gpkit.constraints.single_equation.SingleEquationConstraint.str_without
gpkit.constraints.tight.Tight.__init__
gpkit.constraints.tight.Tight.process_result
gpkit.globals.NamedVariables.__enter__
gpkit.globals.NamedVariables.__exit__
gpkit.globals.NamedVariables.__init__
gpkit.globals.NamedVariables.reset_modelnumbers
gpkit.globals.SignomialsEnabled.__enter__
gpkit.globals.SignomialsEnabled.__exit__
gpkit.globals.SignomialsEnabled.__init__
gpkit.globals.SignomialsEnabledMeta.__bool__
gpkit.globals.Vectorize.__enter__
gpkit.globals.Vectorize.__exit__
gpkit.globals.Vectorize.__init__
gpkit.globals.load_settings
gpkit.interactive.plot_sweep.assign_axes
gpkit.interactive.plot_sweep.format_and_label_axes
gpkit.interactive.plot_sweep.plot_1dsweepgrid
gpkit.interactive.plotting.compare
gpkit.interactive.plotting.plot_convergence
gpkit.interactive.sankey.Sankey.__init__
gpkit.interactive.sankey.Sankey._links_and_nodes
gpkit.interactive.sankey.Sankey.add_node
gpkit.interactive.sankey.Sankey.diagram
gpkit.interactive.sankey.Sankey.filter
gpkit.interactive.sankey.Sankey.link
gpkit.interactive.sankey.Sankey.linkfixed
gpkit.interactive.sankey.Sankey.onclick
gpkit.interactive.sankey.cleanfilename
gpkit.interactive.sankey.getcolor
gpkit.interactive.sankey.isnamedmodel
gpkit.interactive.widgets.create_settings
gpkit.interactive.widgets.create_settings.<locals>.slider_link
gpkit.interactive.widgets.create_settings.<locals>.slider_link.<locals>.link_fn
gpkit.interactive.widgets.modelcontrolpanel
gpkit.interactive.widgets.modelcontrolpanel.<locals>.__defaultfn
gpkit.interactive.widgets.modelcontrolpanel.<locals>.append_plotfn
gpkit.interactive.widgets.modelcontrolpanel.<locals>.append_plotfn.<locals>.__defaultfn
gpkit.interactive.widgets.modelcontrolpanel.<locals>.redo_plots
gpkit.interactive.widgets.modelinteract
gpkit.interactive.widgets.modelinteract.<locals>.resolve
gpkit.keydict.KeyDict.__call__
gpkit.keydict.KeyDict.__delitem__
gpkit.keydict.KeyDict.__getitem__
gpkit.keydict.KeyDict.__setitem__
gpkit.keydict.KeyDict._copyonwrite
gpkit.keydict.KeyDict.copy
gpkit.keydict.KeyDict.get
gpkit.keydict.KeyDict.update
gpkit.keydict.KeyMap.__contains__
gpkit.keydict.KeyMap.__init__
gpkit.keydict.KeyMap.parse_and_index
gpkit.keydict.KeyMap.update_keymap
gpkit.keydict.KeySet.__getitem__
gpkit.keydict.KeySet.update
gpkit.keydict.clean_value
gpkit.nomials.array.NomialArray.__add__
gpkit.nomials.array.NomialArray.__array_finalize__
gpkit.nomials.array.NomialArray.__array_wrap__
gpkit.nomials.array.NomialArray.__getitem__
gpkit.nomials.array.NomialArray.__hash__
gpkit.nomials.array.NomialArray.__mul__
gpkit.nomials.array.NomialArray.__neg__
gpkit.nomials.array.NomialArray.__new__
gpkit.nomials.array.NomialArray.__pow__
gpkit.nomials.array.NomialArray.__radd__
gpkit.nomials.array.NomialArray.__rmul__
gpkit.nomials.array.NomialArray.__rtruediv__
gpkit.nomials.array.NomialArray.__truediv__
gpkit.nomials.array.NomialArray.latex
gpkit.nomials.array.NomialArray.outer
gpkit.nomials.array.NomialArray.prod
gpkit.nomials.array.NomialArray.str_without
gpkit.nomials.array.NomialArray.sub
gpkit.nomials.array.NomialArray.sum
gpkit.nomials.array.NomialArray.vectorize
gpkit.nomials.array.array_constraint
gpkit.nomials.array.array_constraint.<locals>.wrapped_func
gpkit.nomials.array.vec_recurse
gpkit.nomials.core.Nomial.__eq__
gpkit.nomials.core.Nomial.__ne__
gpkit.nomials.core.Nomial.__radd__
gpkit.nomials.core.Nomial.__rmul__
gpkit.nomials.core.Nomial.latex
gpkit.nomials.core.Nomial.prod
gpkit.nomials.core.Nomial.str_without
gpkit.nomials.core.Nomial.value
gpkit.nomials.core.nomial_latex_helper
gpkit.nomials.data.NomialData.__eq__
gpkit.nomials.data.NomialData.__hash__
gpkit.nomials.data.NomialData.__init__
gpkit.nomials.data.NomialData.cs
gpkit.nomials.data.NomialData.exps
gpkit.nomials.data.NomialData.to
gpkit.nomials.data.NomialData.varkeys
gpkit.nomials.data.NomialData.vks
gpkit.nomials.map.NomialMap.__add__
gpkit.nomials.map.NomialMap.copy
gpkit.nomials.map.NomialMap.diff
gpkit.nomials.map.NomialMap.mmap
gpkit.nomials.map.NomialMap.sub
gpkit.nomials.map.NomialMap.to
gpkit.nomials.map.NomialMap.units_of_product
gpkit.nomials.map.subinplace
gpkit.nomials.math.Monomial.__eq__
gpkit.nomials.math.Monomial.__ge__
gpkit.nomials.math.Monomial.__pow__
gpkit.nomials.math.Monomial.__rtruediv__
gpkit.nomials.math.Monomial.c
gpkit.nomials.math.Monomial.exp
gpkit.nomials.math.Monomial.mono_approximation
gpkit.nomials.math.MonomialEquality.__bool__
gpkit.nomials.math.MonomialEquality.__init__
gpkit.nomials.math.MonomialEquality._gen_unsubbed
gpkit.nomials.math.MonomialEquality.as_hmapslt1
gpkit.nomials.math.MonomialEquality.sens_from_dual
gpkit.nomials.math.Posynomial.__le__
gpkit.nomials.math.Posynomial.mono_lower_bound
gpkit.nomials.math.PosynomialInequality.__init__
gpkit.nomials.math.PosynomialInequality._gen_unsubbed
gpkit.nomials.math.PosynomialInequality._simplify_posy_ineq
gpkit.nomials.math.PosynomialInequality.as_hmapslt1
gpkit.nomials.math.PosynomialInequality.sens_from_dual
gpkit.nomials.math.ScalarSingleEquationConstraint.__init__
gpkit.nomials.math.ScalarSingleEquationConstraint.relaxed
gpkit.nomials.math.Signomial.__add__
gpkit.nomials.math.Signomial.__ge__
gpkit.nomials.math.Signomial.__init__
gpkit.nomials.math.Signomial.__le__
gpkit.nomials.math.Signomial.__mul__
gpkit.nomials.math.Signomial.__neg__
gpkit.nomials.math.Signomial.__pow__
gpkit.nomials.math.Signomial.__rsub__
gpkit.nomials.math.Signomial.__sub__
gpkit.nomials.math.Signomial.__truediv__
gpkit.nomials.math.Signomial.chop
gpkit.nomials.math.Signomial.diff
gpkit.nomials.math.Signomial.mono_approximation
gpkit.nomials.math.Signomial.posy_negy
gpkit.nomials.math.Signomial.sub
gpkit.nomials.math.SignomialInequality.__init__
gpkit.nomials.math.SignomialInequality.as_gpconstr
gpkit.nomials.math.SignomialInequality.as_hmapslt1
gpkit.nomials.math.SignomialInequality.sens_from_dual
gpkit.nomials.math.SignomialInequality.sens_from_dual.<locals>.subval
gpkit.nomials.math.SingleSignomialEquality.__init__
gpkit.nomials.math.SingleSignomialEquality.as_gpconstr
gpkit.nomials.math.SingleSignomialEquality.as_hmapslt1
gpkit.nomials.substitution.append_sub
gpkit.nomials.substitution.parse_subs
gpkit.nomials.variables.ArrayVariable.__new__
gpkit.nomials.variables.Variable.__init__
gpkit.nomials.variables.Variable.sub
gpkit.nomials.variables.Variable.to
gpkit.nomials.variables.VectorizableVariable.__new__
gpkit.nomials.variables.addmodelstodescr
gpkit.nomials.variables.veclinkedfn
gpkit.nomials.variables.veclinkedfn.<locals>.newlinkedfn
gpkit.repr_conventions.ReprMixin.__repr__
gpkit.repr_conventions.ReprMixin.__str__
gpkit.repr_conventions.ReprMixin._repr_latex_
gpkit.repr_conventions.ReprMixin.parse_ast
gpkit.repr_conventions.latex_unitstr
gpkit.repr_conventions.lineagestr
gpkit.repr_conventions.necessary_lineage
gpkit.repr_conventions.parenthesize
gpkit.repr_conventions.strify
gpkit.repr_conventions.unitstr
gpkit.small_classes.CootMatrix.__eq__
gpkit.small_classes.CootMatrix.__init__
gpkit.small_classes.CootMatrix.dot
gpkit.small_classes.CootMatrix.tocsr
gpkit.small_classes.Count.__init__
gpkit.small_classes.Count.next
gpkit.small_classes.DictOfLists.append
gpkit.small_classes.DictOfLists.atindex
gpkit.small_classes.DictOfLists.to_arrays
gpkit.small_classes.FixedScalarMeta.__instancecheck__
gpkit.small_classes.HashVector.__add__
gpkit.small_classes.HashVector.__getstate__
gpkit.small_classes.HashVector.__hash__
gpkit.small_classes.HashVector.__mul__
gpkit.small_classes.HashVector.__neg__
gpkit.small_classes.HashVector.__pow__
gpkit.small_classes.HashVector.__radd__
gpkit.small_classes.HashVector.__rmul__
gpkit.small_classes.HashVector.__rsub__
gpkit.small_classes.HashVector.__rtruediv__
gpkit.small_classes.HashVector.__sub__
gpkit.small_classes.HashVector.__truediv__
gpkit.small_classes.HashVector.copy
gpkit.small_classes.SolverLog.__init__
gpkit.small_classes.SolverLog.write
gpkit.small_classes._append_dict
gpkit.small_classes._enlist_dict
gpkit.small_classes._enray
gpkit.small_classes._index_dict
gpkit.small_classes.matrix_converter
gpkit.small_classes.matrix_converter.<locals>.to_
gpkit.small_scripts.appendsolwarning
gpkit.small_scripts.element
gpkit.small_scripts.is_sweepvar
gpkit.small_scripts.isnan
gpkit.small_scripts.mag
gpkit.small_scripts.maybe_flatten
gpkit.small_scripts.splitsweep
gpkit.small_scripts.try_str_without
gpkit.solution_array.SolSavingEnvironment.__enter__
gpkit.solution_array.SolSavingEnvironment.__exit__
gpkit.solution_array.SolSavingEnvironment.__init__
gpkit.solution_array.SolutionArray.__call__
gpkit.solution_array.SolutionArray.__len__
gpkit.solution_array.SolutionArray._parse_showvars
gpkit.solution_array.SolutionArray.almost_equal
gpkit.solution_array.SolutionArray.append
gpkit.solution_array.SolutionArray.decompress_file
gpkit.solution_array.SolutionArray.diff
gpkit.solution_array.SolutionArray.name_collision_varkeys
gpkit.solution_array.SolutionArray.plot
gpkit.solution_array.SolutionArray.save
gpkit.solution_array.SolutionArray.save_compressed
gpkit.solution_array.SolutionArray.savecsv
gpkit.solution_array.SolutionArray.savemat
gpkit.solution_array.SolutionArray.savetxt
gpkit.solution_array.SolutionArray.subinto
gpkit.solution_array.SolutionArray.summary
gpkit.solution_array.SolutionArray.table
gpkit.solution_array.SolutionArray.todataframe
gpkit.solution_array.SolutionArray.varnames
gpkit.solution_array.cast
gpkit.solution_array.constraint_table
gpkit.solution_array.insenss_table
gpkit.solution_array.loose_table
gpkit.solution_array.msenss_table
gpkit.solution_array.senss_table
gpkit.solution_array.tight_table
gpkit.solution_array.topsenss_filter
gpkit.solution_array.topsenss_table
gpkit.solution_array.unrolled_absmax
gpkit.solution_array.var_table
gpkit.solution_array.warnings_table
gpkit.solvers.cvxopt.optimize
gpkit.solvers.mosek_cli.assert_equal
gpkit.solvers.mosek_cli.optimize_generator
gpkit.solvers.mosek_cli.optimize_generator.<locals>.optimize
gpkit.solvers.mosek_cli.read_vals
gpkit.solvers.mosek_cli.remove_read_only
gpkit.solvers.mosek_cli.write_output_file
gpkit.solvers.mosek_conif.optimize
gpkit.solvers.mosek_conif.optimize.<locals>.streamprinter
gpkit.tools.autosweep.BinarySweepTree.__init__
gpkit.tools.autosweep.BinarySweepTree.add_split
gpkit.tools.autosweep.BinarySweepTree.add_splitcost
gpkit.tools.autosweep.BinarySweepTree.cost_at
gpkit.tools.autosweep.BinarySweepTree.min_bst
gpkit.tools.autosweep.BinarySweepTree.posy_at
gpkit.tools.autosweep.BinarySweepTree.sample_at
gpkit.tools.autosweep.BinarySweepTree.save
gpkit.tools.autosweep.BinarySweepTree.solarray
gpkit.tools.autosweep.BinarySweepTree.sollist
gpkit.tools.autosweep.SolutionOracle.__call__
gpkit.tools.autosweep.SolutionOracle.__getitem__
gpkit.tools.autosweep.SolutionOracle.__getval
gpkit.tools.autosweep.SolutionOracle.__init__
gpkit.tools.autosweep.SolutionOracle._is_cost
gpkit.tools.autosweep.SolutionOracle.cost_lb
gpkit.tools.autosweep.SolutionOracle.cost_ub
gpkit.tools.autosweep.SolutionOracle.plot
gpkit.tools.autosweep.autosweep_1d
gpkit.tools.autosweep.get_tol
gpkit.tools.autosweep.recurse_splits
gpkit.tools.docstring.check_and_parse_flag
gpkit.tools.docstring.constant_declare
gpkit.tools.docstring.expected_unbounded
gpkit.tools.docstring.parse_variables.__call__
gpkit.tools.docstring.parse_variables.__init__
gpkit.tools.docstring.parse_varstring
gpkit.tools.docstring.variable_declaration
gpkit.tools.docstring.vv_declare
gpkit.tools.tools.te_exp_minus1
gpkit.tools.tools.te_secant
gpkit.tools.tools.te_tangent
gpkit.units.GPkitUnits.__call__
gpkit.units.GPkitUnits.of_division
gpkit.units.GPkitUnits.of_product
gpkit.units.qty
gpkit.varkey.VarKey.__eq__
gpkit.varkey.VarKey.__getattr__
gpkit.varkey.VarKey.__getstate__
gpkit.varkey.VarKey.__hash__
gpkit.varkey.VarKey.__init__
gpkit.varkey.VarKey.__setstate__
gpkit.varkey.VarKey.latex
gpkit.varkey.VarKey.models
gpkit.varkey.VarKey.str_without
""".split())
