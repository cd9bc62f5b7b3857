for pid in ('C07', 'C09', 'C12'): claim(pid, 'proof', P + B + ASM)
claim('C08', 'proof', P + B + ASM + ' Linear solvers (scipy spsolve/splu) by assumed contract; partial correctness: the property is about reported convergence, not about convergence being reached.')
claim('C10', 'proof', P + B + ASM + ' One or two reference buses; numbering conversion, case loading and printing by their assumed contracts.')
claim('C11', 'proof', P + B + ASM + ' Reactive-limit enforcement off; numbering conversion, case loading, solvers and printing by their contracts.')

BND = 'All obligations generated from the current source of the functions under contract are discharged for all table sizes and values; bounded in the number of cost coefficients/breakpoints per row; '
claim('C15', 'other', BND + B + ASM)
claim('C16', 'other', BND + B + ASM)

claim('C17', 'proof', P + B + ASM)
claim('C18', 'other', BND + B + ASM)
claim('C20', 'other', BND.replace('cost coefficients/breakpoints per row', 'blocks assembled') + B + ASM)
claim('C19', 'other', BND.replace('cost coefficients/breakpoints per row', 'cost rows and breakpoints of piecewise-linear cost tables (makeAy)') + B + ASM)
claim('C13', 'proof', P + B + ASM + ' External bus numbers are an arbitrary injective numbering; numpy.argsort by its contract (some sorting permutation). Round trips are proved for the composition of the real functions, for all tables, commitments and data.')
claim('C24', 'proof', P + B + ASM + ' External bus numbers are an arbitrary injective numbering; the last bus number and the last zone are attained (a renaming).')
claim('C26', 'other', 'All obligations generated from the current source of cpf_p, cpf_p_jac, cpf_predictor and cpf_corrector are discharged for all network sizes, iterations and values; the driver runcpf is evaluated at run time only (bounded). ' + B + ASM + ' Linear solvers by assumed contract; partial correctness.')
claim('C27', 'other', 'All obligations generated from the current source of ppoption are discharged for arbitrary option values; the sets of overridden names are enumerated (none, each documented option, an undocumented one, larger subsets). ' + B + ASM)
claim('C14', 'other', 'loadcase on dictionaries: all obligations generated from the current source are discharged for arbitrary table sizes and values, with the presence of optional tables and the return-count forms enumerated. File formats (savecase, loading .py/.mat/.pkl) are run on generated cases: bounded, not proved. ' + ASM)
claim('C28', 'proof', P + B + ASM + ' The presence of user data (A, N, H, fparm, z) and reactive costs is enumerated; the numbering conversion, makeAy, makeAang, makeAvl and makeApq by their contracts; one or two reference buses.')
claim('C22', 'proof', P + B + ASM + ' The optimiser by assumed contract: arbitrary solution and multiplier vectors. DC polynomial costs of two or three coefficients; the presence of capability curves, angle limits, converted costs and user blocks is enumerated.')
claim('C23', 'proof', P + B + ASM + ' Callbacks are arbitrary functions, any number per stage; add_userfcn and remove_userfcn on bounded lists only (labelled bounded). The optimiser is outside the property.')
claim('C25', 'proof', P + B + ASM + ' The outcome of every optimal power flow (success, cost, outputs, multipliers) is arbitrary within the contract of opf; fairmax draws at random and is evaluated on the real code for short vectors (labelled bounded). Termination of the search is not claimed.')
claim('C29', 'proof', P + B + ASM + ' The internal case and the bus map by the contract of ext2int (C13). Line costs enumerated by kind and number of coefficients or breakpoints, mixtures at run time only. Generator costs without reactive part; the savecase text is outside.')

claim('C21', 'proof', P + B + ASM + ' The user functions and the linear solver are arbitrary; every mixture of row kinds named in the contracts, over any number of variables and rows, any number of iterations (loop invariant). Other mixtures and the front end qps_pips are evaluated on the real code (labelled bounded). Convergence itself is not claimed.')
NA = {'C30': 'the property is about the text of a printed report (printpf: column layout, section selection, formatted numbers); string formatting is outside the verified subset, and no contract within reach relates the printed text to the solved tables for all inputs. The numbers printed are those proved by C10, C11, C22 and C25.'}
