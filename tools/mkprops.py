#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import io
import json
import os

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

D = 'kamrecsys/data/'
SP = 'kamrecsys/score_predictor/'
IF = 'kamrecsys/item_finder/'
ME = 'kamrecsys/metrics/'

P = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe,
         note):
    P.append(dict(pid=pid, title=title, statement=statement, over=over,
                  qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, note=note))


prop('C01', 'Events refer to objects through a bijection of external/internal ids',
     'After events are stored in a container, the objects of every object type '
     'are numbered 0..n-1 by internal ids that correspond one to one, in both '
     'directions, to exactly the distinct external ids appearing in the '
     'columns of that type, and the reported number of objects is that count. '
     'Stored events are the given events written in internal ids, so decoding '
     'them (all of them, any subset, or a single one) returns the external '
     'ids given, whatever their type, number of columns, or assignment of '
     'columns to object types, and encoding inverts it. '
     'Ids that are not in the tables (including negative or too large internal '
     'ids) and illegal specifications of object types are rejected with '
     'ValueError.',
     ['inputs', 'configurations'],
     'all event arrays (int, wide int, float, str ids), all assignments of '
     'columns to object types, refilled containers',
     'tests use one 5-10 row fixture with integer ids and the default types; '
     'the guarantee is for every id set and every column layout',
     [D + 'base.py', D + 'event.py'],
     [('id tables built from unique ids per type', D + 'base.py:_gen_id'),
      ('events encoded column by column', D + 'event.py:EventData.set_event'),
      ('decode / encode', D + 'event.py:to_eid_event, to_iid_event')],
     ['n_objects, eid, iid, event of a container', 'to_eid/to_iid and their '
      'event forms'],
     'set_event on generated events is compared with the sets of ids computed '
     'in plain Python; every id is sent through both directions')

prop('C02', 'Unknown ids in events become the missing marker, bad shapes are errors',
     'Converting events from external to internal ids maps every known id to '
     'its internal id and every unknown id to the missing marker of its '
     'column: by default the number of objects of the type of that column, or '
     'the value(s) the caller gave. '
     'The result does not depend on whether events are converted one by one '
     'or together, and the input is not modified. '
     'Arrays whose last axis is not the size of an event, or that have more '
     'than two axes, are rejected with TypeError in both directions.',
     ['inputs', 'configurations'],
     'all mixtures of known and unknown ids, all markers, all shapes',
     'no stable test converts unknown ids in more than one column or with '
     'shared object types',
     [D + 'event.py'],
     [('lookup with a default', D + 'event.py:to_iid_event'),
      ('shape checks', D + 'event.py:to_eid_event, to_iid_event')],
     ['to_iid_event', 'to_eid_event'],
     'differential against a dictionary lookup written in the check')

prop('C03', 'Filtering keeps exactly the selected events with what belongs to them',
     'Any sequence of filters (boolean masks or indices) applied to a '
     'container yields a container holding exactly the selected events, in '
     'the selected order, whose external ids, scores and event features are '
     'those of the original events. '
     'Its objects are exactly those occurring in the selected events, '
     'renumbered 0..n-1 without gaps, each keeping its own object features. '
     'Neither the original container nor any other container derived from it '
     'is changed by a filter or by later use of the result.',
     ['histories', 'inputs'],
     'all histories of set_event, set_feature, filter_event, binarize_score '
     'over several derived containers',
     'tests filter one fixture once; composition, empty results, repeated '
     'indices, shared types and aliasing are not sampled',
     [D + 'event.py', D + 'event_with_score.py', D + 'base.py'],
     [('object tables are cut and events renumbered',
       D + 'event.py:filter_event'),
      ('scores are cut', D + 'event_with_score.py:filter_event')],
     ['all public attributes of original and derived containers'],
     'model-based: histories over a set of containers are mirrored by a list '
     'of plain tuples')

prop('C04', 'Object features follow their objects by external id',
     'Object features given with a list of external ids are stored so that '
     'the feature of every object is the one given for its external id, '
     'whatever the order of the list and whatever surplus ids it contains. '
     'An object for which no feature is given is rejected with an error '
     'rather than given the feature of another object, and features of other '
     'object types are not affected. '
     'The stored features are independent copies of what the caller gave.',
     ['inputs'],
     'all permutations, surplus and missing ids, feature shapes and dtypes',
     'tests set features only from the bundled files, whose ids are sorted '
     'and complete',
     [D + 'base.py'],
     [('index from external id to row', D + 'base.py:set_feature')],
     ['feature of a container'],
     'features are generated as a function of the id, so every row of the '
     'result is decided by the id it belongs to')

prop('C05', 'Score levels, bins and digits agree with the score domain',
     'For every score domain (minimum, maximum, stride), the score levels are '
     'minimum, minimum+stride, ..., maximum; the bins have one boundary half '
     'way between adjacent levels and are unbounded at both ends; and the '
     'reported number of levels is the number of levels, also if the stride '
     'is not exact in binary or the domain is estimated from the scores. '
     'Digitizing a score gives the position of the nearest level, with '
     'numbers outside of the domain going to the end levels, so each level '
     'is its own digit. '
     'Binarizing turns scores above the threshold (default: the center of '
     'the domain) into 1 and the others into 0, and makes the domain 0/1 '
     'with two levels.',
     ['inputs', 'configurations'],
     'all score domains and scores',
     'tests use the domain (1, 5, 1) and a few scores',
     [D + 'event_with_score.py', ME + 'base.py'],
     [('bins', ME + 'base.py:generate_score_bins'),
      ('levels', D + 'event_with_score.py:get_score_levels'),
      ('digits', D + 'event_with_score.py:digitize_score'),
      ('binary scores', D + 'event_with_score.py:binarize_score')],
     ['score, score_domain, n_score_levels and these methods'],
     'domains are generated as exact rational grids, so the levels and the '
     'nearest level are known without floating point')

prop('C06', 'Loading an event file gives back the events written in it',
     'Loading a tab separated event file gives a container holding exactly '
     'the events of the file, line by line: the leading columns are the '
     'external ids, the next column is the score if scores are loaded, and '
     'the remaining columns are the event features described by the given '
     'dtype. '
     'This holds for every number of object types, assignment of columns to '
     'types, number of lines including one, and for file names as well as '
     'open files. '
     'The score domain is the given one, or estimated from the scores if '
     'None is given.',
     ['inputs', 'configurations'],
     'all event tables that can be written as tab separated files',
     'tests load only the bundled samples, all with two columns of ids and '
     'one feature',
     ['kamrecsys/datasets/base.py'],
     [('dtype of a line', 'kamrecsys/datasets/base.py:load_event, '
       'load_event_with_score')],
     ['the container returned by the loaders'],
     'round trip: generated tables are written to a scratch file and loaded')

prop('C07', 'Dataset converters and loaders preserve every record of the raw data',
     'Converting a raw distribution (MovieLens 100k, MovieLens 1m, SUSHI3, '
     'Flixster) and loading the result with the loader of that dataset gives '
     'exactly the ratings of the raw files, with the documented score domain. '
     'Every user and item keeps the documented features of its own raw '
     'record (age, gender, occupation, zip code, title, dates, genres, and '
     'so on), coded by the documented tables. '
     'The mini data set holds exactly the ratings whose user id and item id '
     'are at most 10, and the other bundled loaders also return the records '
     'of their files.',
     ['inputs'],
     'all raw files in the formats of the distributions',
     'converters have no tests; loader tests look at a few rows of the '
     'bundled samples',
     ['data/movielens100k.py', 'data/movielens1m.py', 'data/movielens_mini.py',
      'data/sushi3.py', 'data/flixster.py', 'kamrecsys/datasets/movielens.py',
      'kamrecsys/datasets/sushi3.py', 'kamrecsys/datasets/flixster.py',
      'kamrecsys/datasets/others.py'],
     [('conversion scripts', 'data/*.py'),
      ('loaders', 'kamrecsys/datasets/*.py:load_*')],
     ['converted files', 'containers returned by the loaders'],
     'synthetic raw distributions are generated, converted by running the '
     'scripts on a scratch copy, loaded, and compared field by field')

prop('C08', 'Factorization models optimize the documented objective exactly',
     'The objective that the matrix factorization recommenders hand to the '
     'optimizer is, at every parameter vector, half the sum of squared errors '
     '(score predictor) or the cross entropy (item finders; for the implicit '
     'one over all user-item pairs, unseen pairs counting as 0), plus half of '
     'C times the sum of squares of all biases and latent factors but not of '
     'the global bias. '
     'The gradient handed over is the exact gradient of that objective in '
     'every coordinate, for every number of latent factors, including '
     'repeated events and objects without events.',
     ['inputs', 'configurations'],
     'all data sets, hyper parameters and parameter vectors',
     'tests compare the loss and gradient at one or two points with literals '
     'computed by the same code',
     [SP + 'matrix_factorization.py', IF + 'matrix_factorization.py'],
     [('objective', 'loss methods'), ('gradient', 'grad_loss methods')],
     ['function, gradient and arguments received by a custom optimizer'],
     'differential against naive loops over events; gradients by formula and '
     'by numerical differentiation')

prop('C09', 'Fitting results describe the model that was learned',
     'After fitting a matrix factorization recommender, the reported final '
     'loss is the documented objective at the learned parameters, the '
     'reported numbers of users, items, events and parameters are those of '
     'the training data and the model, and the status, message, success flag '
     'and counts are those the optimizer returned. '
     'The final loss is never larger than the initial loss, and with a tight '
     'tolerance the learned parameters are a stationary point of the '
     'documented objective. '
     'The optimizer options given by the user (method, tolerance, maximum '
     'number of iterations, other options) are the ones used and reported.',
     ['inputs', 'configurations'],
     'all data sets, hyper parameters and optimizer options',
     'tests look at one fit of one fixture',
     [SP + 'matrix_factorization.py', IF + 'matrix_factorization.py'],
     [('call of the optimizer and the record of its result', 'fit methods')],
     ['fit_results_', 'learned parameters'],
     'the objective is recomputed from the public parameters; a recording '
     'optimizer checks what it was given and what is reported')

prop('C10', 'Predictions are the model formula, and unknown objects are neutral',
     'The prediction of a matrix factorization recommender for an event is '
     'global bias + user bias + item bias + inner product of the latent '
     'factors of the user and item named by external ids (passed through the '
     'logistic function for item finders), and the part of an object not seen '
     'in training is zero. '
     'It is the same whether the event is given alone or among others in any '
     'order, has the shape of the input (one number for one event), and does '
     'not change the recommender. '
     'It uses the columns and object types chosen at training time, for '
     'external ids of any type.',
     ['inputs', 'configurations', 'histories'],
     'all models, events, id types, column selections and batches',
     'tests predict a few known events with integer ids and default columns',
     ['kamrecsys/base/base.py', SP + 'matrix_factorization.py',
      IF + 'matrix_factorization.py', D + 'event.py'],
     [('encoding of events and the choice of columns',
       'kamrecsys/base/base.py:predict'),
      ('extra zero row for unknown objects', 'fit methods'),
      ('formula', 'raw_predict methods')],
     ['predict'],
     'recomputed from the learned parameters with dictionaries from the '
     'training events')

prop('C11', 'Renaming objects does not change what is learned',
     'Replacing the external ids of the training data by others through any '
     'strictly increasing renaming (also from numbers to strings) and '
     'predicting for renamed events gives exactly the same learned '
     'parameters, fitting results and predictions, for every recommender with '
     'a fixed random seed. '
     'Columns of events that are not used by the model (unless they bring '
     'other objects of the types used), event features and '
     'object features have no influence either.',
     ['inputs', 'configurations'],
     'all data sets, recommenders and order-preserving renamings',
     'no test relates two fits',
     ['kamrecsys/base/base.py', D + 'event.py', SP + 'topic_model.py',
      SP + 'matrix_factorization.py', IF + 'matrix_factorization.py'],
     [('recommenders see internal ids only', 'fit, predict')],
     ['learned parameters, fit_results_, predict'],
     'metamorphic: two fits related by the renaming')

prop('C12', 'Fitting is deterministic, repeatable and isolated',
     'With an integer seed, fitting the same data gives the same model and '
     'predictions every time, also when one recommender object is fitted '
     'again, was fitted to other data before or is fitted while others are '
     'trained, and leaves the global random '
     'state and the error handling of numpy alone. '
     'Fitting and predicting change neither the training container nor the '
     'options given by the caller, and refilling, filtering or binarizing the '
     'container afterwards does not affect the trained recommender. '
     'A trained recommender holds no training events or scores, and survives '
     'pickling and copying with the same predictions.',
     ['histories', 'configurations'],
     'all histories of fits, predictions and container operations over '
     'several recommenders',
     'each test fits one fresh recommender',
     ['kamrecsys/base/base.py', SP + 'base.py', SP + 'topic_model.py',
      SP + 'matrix_factorization.py', IF + 'base.py',
      IF + 'matrix_factorization.py', D + 'event.py'],
     [('random state is made at the start of fit', 'kamrecsys/base/base.py:fit'),
      ('training data are released', 'remove_data methods')],
     ['predict and learned parameters after histories', 'np.random state'],
     'stateful: histories over two containers and two recommenders against '
     'fresh fits')

prop('C13', 'pLSA learns by exact EM and ends with proper distributions',
     'After fitting the pLSA score predictor, the distribution of latent '
     'factors and the distributions of users, items and score levels given '
     'each latent factor are strictly positive and sum to one, with one entry '
     'per known object and score level. '
     'Each iteration is one exact EM step with additive smoothing alpha, so '
     'the likelihood plus the smoothing prior never gets worse. '
     'The reported initial and final loss are the mean negative log '
     'likelihood of the model before and after the iterations, and the number '
     'of iterations, options, status, message, success flag, and the numbers '
     'of users, items, events and parameters describe the fit, including zero '
     'iterations and stopping at the limit.',
     ['inputs', 'configurations'],
     'all data sets, numbers of factors, alphas, seeds and limits',
     'tests compare one fixture with literals',
     [SP + 'topic_model.py', 'kamrecsys/utils/base.py'],
     [('M step', SP + 'topic_model.py:maximization_step'),
      ('E step and stopping rule', SP + 'topic_model.py:fit')],
     ['learned distributions', 'fit_results_'],
     'the model after m+1 iterations is compared with one naive EM step from '
     'the model after m iterations')

prop('C14', 'pLSA predicts the mean or mode of the score distribution',
     'The prediction of the pLSA score predictor for an event is the expected '
     'score, or the most probable score level in the mode variant, of the '
     'distribution of score levels given the user and item under the learned '
     'model, and always lies within the score domain. '
     'An object that was not seen in training is marginalized out, so only '
     'the known objects of the event (or only the prior) decide. '
     'It is the same for an event alone or in a batch, and the shape is that '
     'of the input.',
     ['inputs', 'configurations'],
     'all models and events with known and unknown objects',
     'tests predict two known events',
     [SP + 'topic_model.py', 'kamrecsys/base/base.py'],
     [('distribution of scores', SP + 'topic_model.py:raw_predict'),
      ('row of ones for unknown objects', SP + 'topic_model.py:fit')],
     ['predict'],
     'recomputed by Bayes rule from the learned distributions')

prop('C15', 'Recommenders accept only data of the right kind',
     'The explicit item finder accepts data exactly if the score domain is '
     '0/1 and both 0 and 1 and nothing else occur as scores, and raises '
     'ValueError otherwise. '
     'Recommenders reject inputs that are not containers of the required '
     'class (events, or events with scores) with TypeError. '
     'Predictions of item finders are probabilities strictly between 0 and 1, '
     'also for extreme parameters.',
     ['inputs', 'configurations'],
     'all score arrays and domains, all kinds of containers',
     'tests try two or three rejected inputs',
     [IF + 'base.py', IF + 'matrix_factorization.py', SP + 'base.py',
      'kamrecsys/base/base.py', 'kamrecsys/utils/base.py',
      D + 'base.py', D + 'event.py', D + 'event_with_score.py'],
     [('binary check', IF + 'base.py:fit'),
      ('class checks', 'data mixins: _set_*_info')],
     ['fit raising or not', 'predict'],
     'accept/reject is decided by a predicate written in the check')

prop('C16', 'Implicit feedback is the 0/1 matrix of users and items',
     'The rating matrix of the implicit item finder has one row per user and '
     'one column per item of the selected columns of events, with 1 exactly '
     'where the user has an event with the item and 0 elsewhere, however often '
     'the event is repeated. '
     'It is the same in every supported sparse or dense representation, '
     'unsupported representations are rejected with TypeError, and training '
     'depends on the events only through that matrix.',
     ['inputs', 'configurations'],
     'all event arrays, selections of columns and representations',
     'tests build the matrix of one fixture without repeated events',
     [IF + 'base.py', IF + 'matrix_factorization.py'],
     [('matrix', IF + 'base.py:get_event_array')],
     ['get_event_array', 'training results'],
     'differential against a set of pairs; metamorphic: repeating and '
     'reordering events')

prop('C17', 'Error metrics equal their definitions',
     'Mean absolute error, mean squared error and root mean squared error, '
     'their standard deviations, and the summary report and full statistics '
     'of score predictions built from them, equal their definitions for all '
     'finite non-empty inputs of equal length given as arrays or lists. '
     'They are consistent with each other and do not change their inputs. '
     'Inputs of different lengths or with NaN or infinity are rejected with '
     'ValueError.',
     ['inputs'], 'all pairs of score vectors',
     'tests compare two fixtures with literals',
     [ME + 'real.py', ME + 'score_predictor.py'],
     [('definitions', ME + 'real.py:mean_absolute_error, '
       'mean_squared_error'),
      ('report', ME + 'score_predictor.py:score_predictor_report')],
     ['return values', 'the text of the report'],
     'definitions in exact rational or high precision arithmetic')

prop('C18', 'Score histograms count every score once at its level',
     'The histogram of scores over a score domain has one cell per score '
     'level, counts every score in the cell of its nearest level (numbers '
     'outside of the domain in the end cells), and so sums to the number of '
     'scores; the returned candidate scores are the levels. '
     'With a number of bins instead of a domain, it divides the range of the '
     'scores evenly and returns the centers of the bins. '
     'The full statistics of score predictions contain these histograms of '
     'true and predicted scores, their densities summing to one, and the '
     'levels.',
     ['inputs', 'configurations'], 'all scores and domains',
     'tests use the domain (1, 5, 1)',
     [ME + 'real.py', ME + 'score_predictor.py', ME + 'base.py'],
     [('histogram', ME + 'real.py:score_histogram'),
      ('statistics', ME + 'score_predictor.py:score_predictor_statistics')],
     ['return values'],
     'nearest level on exact rational grids')

prop('C19', 'Statistics of item finding equal their definitions',
     'The report and statistics of item finding contain the number of '
     'samples, the means and standard deviations of true and predicted '
     'scores, and the area under the curve, which is the probability that a '
     'random positive is ranked above a random negative with ties counted as '
     'one half. '
     'The area is present exactly if both classes occur. '
     'True scores other than 0 and 1, non-finite values and different lengths '
     'are rejected with ValueError, and the inputs are not changed.',
     ['inputs'], 'all binary vectors and predictions with ties',
     'tests use two fixtures',
     [ME + 'item_finder.py', 'kamrecsys/utils/base.py'],
     [('statistics', ME + 'item_finder.py')],
     ['return values', 'the text of the report'],
     'area by counting pairs')

prop('C20', 'Variance with a gamma prior is the MAP estimate over finite values',
     'The variance with a gamma prior equals (2b + sum x^2 - (sum x)^2/n) / '
     '(2a + n) over the finite values of the input in any shape, is positive, '
     'and does not depend on the order of values. '
     'NaN and infinite values are ignored, and the number of valid values is '
     'reported on request. '
     'Inputs without any finite value, and inputs with a non-finite value if '
     'finiteness is demanded, are rejected with ValueError.',
     ['inputs', 'configurations'], 'all arrays and prior parameters',
     'tests use a few arrays',
     [ME + 'real.py'],
     [('formula', ME + 'real.py:variance_with_gamma_prior')],
     ['return values'],
     'exact rational arithmetic')

prop('C21', 'Means of statistics pair the arguments of each fold',
     'The mean of a statistic over folds calls the given function once per '
     'fold, with exactly the arguments stored for that fold in each of the '
     'given dictionaries (by key) or lists (by position), in the given order '
     'of arguments, and returns the element-wise mean of the results. '
     'Dictionaries with different insertion orders give the same result, and '
     'other kinds of arguments are rejected with TypeError.',
     ['inputs'], 'all numbers of folds, keys, arguments and statistics',
     'tests use one fixture with two folds',
     [ME + 'base.py'],
     [('pairing', ME + 'base.py:statistics_mean')],
     ['return value', 'calls of the function'],
     'calls are recorded and compared with the pairing by key')

prop('C22', 'Shuffle splits are drawn within each group',
     'Every split of shuffle-split within groups consists of disjoint '
     'training and test indices, where each group contributes the numbers of '
     'test and training data that the given test size and train size '
     '(fraction, count or unspecified) prescribe for a group of its size, and '
     'all data are used unless both sizes say otherwise. '
     'The number of splits is the requested one, splits are the same for the '
     'same seed, differ among each other, among groups and among seeds '
     'when there is choice, and without shuffling follow the order of data. '
     'Without groups the entire data are one group.',
     ['inputs', 'configurations'],
     'all group vectors, sizes, seeds and numbers of splits',
     'the tests of this module could not even be imported with the installed '
     'scikit-learn',
     ['kamrecsys/model_selection/split.py'],
     [('split per group', 'kamrecsys/model_selection/split.py:'
       'ShuffleSplitWithinGroups')],
     ['indices yielded by split', 'get_n_splits'],
     'sizes by the documented rounding, checked per group and split')

prop('C23', 'K-fold within groups partitions every group evenly',
     'K-fold within groups yields exactly the requested number of splits '
     'whose test sets partition all data and whose training sets are the '
     'complements, and within every group the sizes of the folds differ by at '
     'most one. '
     'Without shuffling each fold takes consecutive members of each group as '
     'usual k-fold does; with shuffling the same seed gives the same folds. '
     'Fewer than two folds, more folds than data, or a group smaller than the '
     'number of folds is an error, and without groups the entire data are one '
     'group.',
     ['inputs', 'configurations'],
     'all group vectors, numbers of folds and seeds',
     'the tests of this module could not be imported',
     ['kamrecsys/model_selection/split.py'],
     [('k-fold per group', 'kamrecsys/model_selection/split.py:'
       'KFoldWithinGroups')],
     ['indices yielded by split'],
     'partition and balance are checked directly; unshuffled folds against '
     'a naive k-fold')

prop('C24', 'Interlaced k-fold assigns the i-th datum to fold i mod k',
     'Interlaced k-fold yields exactly k splits; the test set of the j-th one '
     'is exactly the indices i with i mod k = j in ascending order, and the '
     'training set is the rest. '
     'Fewer than two folds or more folds than data are rejected with '
     'ValueError.',
     ['inputs', 'configurations'], 'all numbers of data and folds',
     'the tests of this module could not be imported',
     ['kamrecsys/model_selection/split.py'],
     [('assignment', 'kamrecsys/model_selection/split.py:InterlacedKFold')],
     ['indices yielded by split'],
     'direct comparison, arithmetic oracle')

prop('C25', 'Results containers become JSON without losing values',
     'Making a nested container of dictionaries and lists JSON-serializable '
     'keeps its structure and every number, boolean and string, and turns '
     'numpy scalars, arrays and sparse matrices at any depth into the '
     'equivalent Python values and (nested) lists. '
     'Anything else becomes its string. '
     'The result can be dumped and read back unchanged, and converting twice '
     'changes nothing more.',
     ['inputs'], 'all nested containers',
     'tests convert two small dictionaries',
     ['kamrecsys/utils/kamexputils.py'],
     [('conversion in place', 'kamrecsys/utils/kamexputils.py:'
       'json_decodable')],
     ['the container after the call', 'json.dumps'],
     'recursive containers generated together with their expected value')

prop('C26', 'Experiment scripts record what was really trained and tested',
     'The output of an experiment script contains, for a hold-out test, the '
     'events and true scores of the test file in order and the predictions a '
     'recommender with the given options trained on the training file makes '
     'for them; for cross validation, per fold the test events of a split '
     'taking 20% of the ratings of every user, the masks selecting them, '
     'their scores, event features, and predictions of a recommender trained '
     'on all other ratings. '
     'Binarization for item finders uses the domain of the training data. '
     'The recorded conditions, model options, file names, numbers of events, '
     'users and items, fitting results and times are those of the run, and '
     'nothing is recorded without test data or for a fold out of range.',
     ['inputs', 'configurations'],
     'all event files, options, schemes and seeds',
     'the scripts have no tests',
     ['scripts/exp_recsys_sp.py', 'scripts/exp_recsys_if.py',
      'scripts/exp_recsys_util.py'],
     [('schemes', 'scripts/exp_recsys_util.py:holdout_test, cv_test')],
     ['output JSON of the scripts'],
     'scripts run on generated files in process; predictions are recomputed '
     'with the library on the training part')

prop('C27', 'Merging folds equals running all folds, and statistics pool them',
     'Running the folds of a cross validation one by one with the same seed '
     'and merging the outputs, in any order, gives the same training, test '
     'and prediction results for every fold as running all folds at once. '
     'The statistics script gives the statistics of the recorded true and '
     'predicted scores, pooled over all folds, of the recorded task type and '
     'score domain. '
     'It keeps the rest of the record, and drops predictions only if not '
     'asked to keep them.',
     ['inputs', 'configurations', 'histories'],
     'all event files, options, numbers and orders of folds',
     'the scripts have no tests',
     ['scripts/exp_recsys_fold_merge.py', 'scripts/stats_recsys.py',
      'scripts/exp_recsys_util.py'],
     [('merge', 'scripts/exp_recsys_fold_merge.py:first_fold, rest_fold'),
      ('pooling', 'scripts/stats_recsys.py:do_task')],
     ['output JSON of the scripts'],
     'differential: merged single folds against one full run; statistics '
     'recomputed by definition')

prop('C28', 'Numerical and status utilities are exact on their whole range',
     'The sigmoid used by item finders is within [1e-15, 1-1e-15], monotone, '
     'and equal to the logistic function inside the clipping range, for '
     'scalars and arrays of any shape and any finite or infinite argument. '
     'The test of binary scores is true exactly for collections consisting of '
     'only 0s and 1s, and of both if uniform ones are not allowed. '
     'The message of a fitting status is the documented one for 0 to 3 and '
     'the unknown message otherwise.',
     ['inputs'], 'all arguments',
     'tests use a handful of arguments',
     ['kamrecsys/utils/kammath.py', 'kamrecsys/utils/base.py'],
     [('clipping', 'kamrecsys/utils/kammath.py:safe_sigmoid'),
      ('checks', 'kamrecsys/utils/base.py')],
     ['return values'],
     'high precision logistic function; set predicates')

prop('C29', 'Recommenders built on the base classes see their training data',
     'A recommender class derived from one of the base classes (events, score '
     'predictor, explicit or implicit item finder) finds, once the fit method '
     'of the base class has run, the events of the selected columns in '
     'internal ids, the number of objects for each of these columns, the '
     'features of events, the scores with their domain and levels, and the '
     'id tables of the container, whatever columns are selected (by default '
     'all, or the first two if scores are needed) and whatever it was fitted '
     'to before. '
     'Its predict method hands the events given by external ids to '
     'raw_predict as internal ids of the selected columns, an unknown object '
     'being the number of objects, and returns the result in the shape of '
     'the input. '
     'The container is not changed, and removing the data leaves neither '
     'events nor scores behind.',
     ['inputs', 'configurations', 'histories'],
     'all column layouts and selections, queries with unknown objects, '
     'sequences of fits',
     'no test derives a class from the base classes or selects columns other '
     'than the first two',
     ['kamrecsys/base/base.py', SP + 'base.py', IF + 'base.py',
      D + 'event.py', D + 'event_with_score.py'],
     [('selection of columns', 'kamrecsys/base/base.py:BaseEventRecommender.fit'),
      ('conversion of queries',
       'kamrecsys/base/base.py:BaseEventRecommender.predict'),
      ('import of meta information',
       D + 'event.py:_set_event_info, event_with_score.py:_set_score_info, '
       'base.py:_set_object_info')],
     ['attributes of a recommender after fit', 'arguments of raw_predict',
      'predict'],
     'subclasses that record what they are given, compared with the rows of '
     'the case')

prop('C30', 'A filtered container is as good as a freshly filled one',
     'A container obtained by any sequence of filters equals, in events, '
     'scores, domain, id tables and features of events and objects, a new '
     'container filled with the selected events only. '
     'The same operations applied to both afterwards (conversion of other '
     'events, setting features, further filters, binarizing) give equal '
     'results. '
     'Training a recommender with a fixed seed on either gives the same '
     'parameters, fitting results and predictions.',
     ['histories', 'inputs'],
     'all event data, sequences of filters and operations after them, all '
     'recommenders',
     'tests filter once and look at the result, but never use it',
     [D + 'event.py', D + 'event_with_score.py', D + 'base.py'],
     [('renumbering', D + 'event.py:filter_event'),
      ('id tables', D + 'base.py:_gen_id, _gen_id_substitution_table')],
     ['attributes and methods of containers', 'trained recommenders'],
     'differential: filtering against filling a new container')


prop('C31', 'Training starts at the means of the data with random latent factors',
     'The optimization of a matrix factorization recommender starts with the '
     'mean score as global bias, the mean residual of the events of each user '
     'and then of each item as their biases (for implicit feedback: the '
     'fractions of pairs with events), and independent normal random latent '
     'factors whose standard deviation is the root mean squared residual for '
     'score predictors and one for item finders. '
     'The random start depends on the seed or generator given (also that of '
     'topic models), and differs among objects, factors and seeds. '
     'For explicit feedback, objects of the container without events in the '
     'selected columns start with zero parameters, keep them while training, '
     'change nothing for the others, and so are predicted like unknown '
     'objects.',
     ['inputs', 'configurations'],
     'all event data, columns, numbers of factors, seeds and optimizers',
     'tests check final losses of one seed to a few digits, which another '
     'start reaches, too, and have no objects without events',
     [SP + 'matrix_factorization.py', IF + 'matrix_factorization.py',
      'kamrecsys/base/base.py'],
     [('start', SP + 'matrix_factorization.py:PMF._init_coef'),
      ('start', IF + 'matrix_factorization.py:LogisticPMF._init_coef, '
       'ImplicitLogisticPMF._init_coef'),
      ('generator', 'kamrecsys/base/base.py:BaseRecommender.fit')],
     ['learned parameters with maxiter=0', 'x0 of a custom optimizer'],
     'differential: means by loops, statistics of the random factors')


def main():
    have = set(f[:-3].upper() for f in os.listdir(
        os.path.join(HOME, 'kv', 'props')) if f.startswith('c'))
    with io.open(os.path.join(HOME, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            n = p['statement'].count('. ') + 1
            assert n <= 3, (p['pid'], n)
            f.write(json.dumps({
                'id': p['pid'], 'title': p['title'],
                'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['qtext']},
                'why_tests_cant': p['why'],
                'anchors': {
                    'files': p['files'],
                    'mechanism': [{'name': n_, 'where': w}
                                  for n_, w in p['mech']],
                    'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
    man = {
        'version': 1,
        'setup_cmd': './setup.sh',
        'checks': [], 'not_applicable': [],
        'notes': 'No hooks are needed: every check drives public behaviour. '
                 'Every check is generated-input search with Hypothesis '
                 '(vendored in vendor/), with shrinking and JSON replay files '
                 '(./run <id> --replay <file>).'}
    for p in P:
        if p['pid'] in have:
            man['checks'].append({
                'property': p['pid'],
                'quick_cmd': './run ' + p['pid'],
                'thorough_cmd': 'VERIF_TIER=thorough ./run ' + p['pid'],
                'technique': 'property-based testing (Hypothesis): ' +
                             p['note'],
                'level': 'exploration',
                'level_note': 'Seeded random generation with shrinking over '
                              + p['qtext'] + '; small structures (tens of '
                              'events), an explicit independent oracle, no '
                              'proof. Trusts numpy, scipy, scikit-learn and '
                              'the oracle code in kv/props/%s.py.' %
                              p['pid'].lower()})
        else:
            man['not_applicable'].append({
                'property': p['pid'],
                'reason': 'check not built yet'})
    with io.open(os.path.join(HOME, 'MANIFEST.json'), 'w') as f:
        f.write(json.dumps(man, indent=1) + '\n')


main()
