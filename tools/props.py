NOTES = ("Every check compiles a harness in checks/ against /repo's current headers (no hooks in /repo) and enumerates a bounded space completely; "
         "bounds are in each evidence file and in DESIGN.md. Known findings: known_findings.txt.")
PROPS = []

def P(id, title, statement, over, qtext, why, files, mech, technique, note, level='model_checking', state=None, observe=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                                   observe_at=observe or [], hook_needed=None),
                      technique=technique, note=note, level=level, na=na))

P('N01', 'Eight-bit floats keep sign, order, range and the nearest value',
  'Encoding any number as an 8-bit float and decoding it yields one of the two neighbouring representable values (the nearest, except just below a power of two), never changes its sign, preserves order, clamps beyond the range, and keeps infinities and NaN. Every 8-bit value that is not the reserved tiny one re-encodes to itself, and arithmetic equals decode, compute, encode.',
  ['inputs', 'configurations'], 'all 2^32 single-precision values x biases; all pairs of 8-bit codes for arithmetic',
  'Tests convert a few dozen hand-picked values; the codec is branch-free bit manipulation whose faults sit at single bit patterns (carry, clamp, sign of zero).',
  ['src/types/quarter_float.hpp'], [('floatToQuarter / quarterToFloat', 'src/types/quarter_float.hpp')],
  'exhaustive enumeration of all inputs of the real codec against a table model', 'Complete over the input space for the listed biases; trusts the harness oracle and IEEE floats of the host.',
  observe=['floatToQuarter', 'quarterToFloat', 'quarterAdd'])
P('N02', 'Sixteen-bit floats and portable byte order are lossless where they claim to be',
  'A number stored as a 16-bit float comes back with the same sign, rounded toward zero by less than 1/128 of its magnitude, in order, and infinities and NaN survive; every 16-bit code re-encodes to itself. Converting an integer or float to the portable byte order gives big-endian bytes and converting twice gives the original.',
  ['inputs'], 'all 2^32 32-bit patterns, all 2^16 16-bit patterns, 64-bit words with every value in every pair of byte positions',
  'Tests look at a handful of values; every saved model and dataset depends on all of them.',
  ['src/types/half_float.hpp', 'src/util/portable_bytes.hpp'], [('floatToHalf / halfToFloat', 'src/types/half_float.hpp'), ('portableBytes', 'src/util/portable_bytes.hpp')],
  'exhaustive enumeration of all inputs of the real conversions against an arithmetic model', 'Complete for 16- and 32-bit inputs; 64-bit inputs are covered per pair of byte positions; little-endian host.')
P('N03', 'A saved tensor loads back with the same shape and values',
  'Whatever kind of tensor is saved, to a path or inside a larger stream, reading it back yields the same shape and bit-identical values, and consumes exactly the bytes that were written. Loading at a reduced width yields the values that width can hold. A missing or truncated file is refused.',
  ['inputs', 'configurations'], 'all small shapes x storage kinds x value patterns, every value each compact storage can hold, one or several tensors per stream',
  'Tests save one or two tensors of one shape; layout errors need non-square, multi-channel shapes, consecutive tensors or particular stored levels.',
  ['src/types/base_tensors.hpp', 'src/types/tensor_impls/full_tensor.hpp', 'src/types/tensor_impls/half_tensor.hpp', 'src/types/tensor_impls/quarter_tensor.hpp', 'src/types/tensor_impls/pixel_tensor.hpp', 'src/util/tensor_utils.hpp'],
  [('BaseTensor::save', 'src/types/base_tensors.hpp'), ('assignFromStream', 'src/types/tensor_impls/')],
  'exhaustive enumeration of shapes, kinds and values, save/load replayed on the real code', 'Complete within the listed shapes and alphabets.')
P('T01', 'Composed tensor operations equal their mathematical definitions',
  'Every tensor operation, and every composition of them, has the shape and element values of its mathematical definition, whatever the shape of its operands and however deep the composition. Operations whose operands do not fit together are refused.',
  ['inputs', 'programs'], 'all sequences of tensor operations up to a depth over all small start shapes; all pairs of small operand shapes',
  'Tests apply single operations to one or two square matrices; index errors need non-square, multi-channel or stacked operands and particular kernel sizes.',
  ['src/types/tensor_views/', 'src/types/base_tensors.hpp', 'src/util/tensor_utils.hpp'], [('getValue of each view', 'src/types/tensor_views/')],
  'bounded exhaustive exploration of operation sequences on the real views against a reference array model', 'Complete up to the stated depth and shapes; tolerance for single precision; ill-conditioned compositions are pruned.')
P('T02', 'Tensor queries agree with the elements they summarise',
  'Sums, products, extremes, positions of extremes, top-k lists, moments, norms, row access, flat access, equality, and invalid-value detection of a tensor equal what its individual elements imply, for every shape and channel. Generated tensors are deterministic and stay in their stated range.',
  ['inputs'], 'all assignments of a five-value alphabet to all shapes up to eight elements; larger shapes by pattern',
  'Tests query a few single-channel matrices; ties, zeros, negative values, later channels and later rows are not covered.',
  ['src/types/base_tensors.hpp', 'src/util/tensor_utils.hpp', 'src/types/tensor_impls/tensor_from_random.hpp', 'src/types/tensor_impls/tensor_from_xavier.hpp'],
  [('BaseTensor queries', 'src/types/base_tensors.hpp')],
  'exhaustive enumeration of small tensors, queries compared with a reference model', 'Complete within the listed shapes and alphabet.')
P('D01', 'Delimited text written is read back field for field',
  'Rows written by the delimited writer are read back by the delimited reader with the same number of rows, the same number of fields and the same bytes in each field, whatever the fields contain: delimiters, quotes, line breaks, spaces, empty fields. Reading from any row, skipping, rewinding and asking for row counts agree with the rows written.',
  ['inputs', 'operation sequences'], 'all short strings over the alphabet of special characters as fields, all small tables of special fields, each delimiter',
  'Tests write two or three plain rows; quoting interacts across fields, lines and line endings.',
  ['src/util/file_writer.hpp', 'src/util/file_reader.hpp'], [('DelimitedTextFileWriter', 'src/util/file_writer.hpp'), ('DelimitedTextFileReader', 'src/util/file_reader.hpp')],
  'exhaustive enumeration of tables up to a size, written and read back by the real code', 'Complete within the alphabet and sizes listed.')
P('D02', 'Foreign delimited and plain text is read as its format says',
  'Delimited text made by other programs (any mixture of quoted and bare fields, LF or CRLF, with or without a final line break, blank lines, a directory of files) is read as the records its format defines. Converting tab-separated and plain text to comma-separated keeps every field, line and word. Encoding special characters in text and decoding it again gives the original text.',
  ['inputs'], 'all short documents over the alphabet of special characters; all small directories of small files',
  'Tests read one well-formed file; every combination of quoting, line ends and empty parts is a separate path of the reader.',
  ['src/util/file_reader.hpp', 'src/util/text_encoder_decoder.hpp', 'src/util/data_util.hpp', 'src/training_data/data_encoder.hpp'], [('DelimitedTextFileReader, TextLineFileReader', 'src/util/file_reader.hpp')],
  'exhaustive enumeration of short documents, real reader against a reference reader', 'Complete within the alphabet and length; plain words for text splitting.')
P('D03', 'Sorting a text file is a sorted permutation of its lines',
  'The external sort writes exactly the lines of its input, each as often as it occurs, in byte order, with an optional header kept first, whatever the number of lines, the chunk size and the lines themselves, and whatever other files lie beside it. It leaves no temporary files, changes no other file, and reports failure when it cannot do its work.',
  ['inputs', 'configurations'], 'all sequences of lines from a small alphabet up to a length x chunk sizes x header x surrounding files',
  'Tests sort one small file in one chunk; merging several chunks, ties, empty lines and a missing final line break are separate paths.',
  ['src/util/text_file_sorter.hpp', 'src/util/dataset_utils.hpp'], [('FileSorter::sort', 'src/util/text_file_sorter.hpp')],
  'bounded exhaustive exploration of inputs and chunk boundaries on the real sorter against a sorted multiset', 'Complete up to the listed number of lines; chunk boundaries are reached with the real chunk size parameter.')
P('D04', 'Create dataset keeps every distinct row and every value',
  'Creating a dataset from a file yields exactly one row for every distinct input in the source, each with an expected value that the source gives that input, each value in its place (row by row, channel by channel, columns in the order requested), scaled to its column\'s range and able to be turned back into the original value; labels are one-hot encoded. What cannot be represented (malformed numbers, rows of the wrong width, overlapping columns, existing names) is refused and leaves nothing behind.',
  ['inputs', 'configurations', 'fault points'], 'all column layouts x all small tables over a value alphabet, each kind of malformed row at each position',
  'Tests create one dataset with one layout; column order, gaps, shapes, duplicates, constants and value ranges interact.',
  ['src/util/dataset_utils.hpp', 'src/lang/statements/create_dataset_statement.hpp', 'src/util/file_writer.hpp', 'src/training_data/data_encoder.hpp', 'src/training_data/data_decoder.hpp', 'src/util/tensor_stats.hpp'],
  [('create_binary_dataset_from_delimited_values', 'src/util/dataset_utils.hpp'), ('CreateDatasetStatement::execute', 'src/lang/statements/create_dataset_statement.hpp')],
  'bounded exhaustive enumeration of layouts and tables run end to end on the real code against a reference model of the dataset', 'Complete within the listed layouts and tables; one label group; local files.')
P('D05', 'A binary dataset file returns the rows written to it',
  'Rows written to a binary dataset file are read back by number, in order, from any row and in any order, with the same values, names and column metadata; the row count is exact; rewriting with normalization, standardization or duplicate removal changes exactly what it names. A file cut short anywhere is refused or returns only whole rows.',
  ['inputs', 'operation sequences', 'crash points'], 'all small column layouts x rows, all read sequences up to a depth, every truncation length of a file',
  'Tests write one file and read it once in order.',
  ['src/util/file_reader.hpp', 'src/util/file_writer.hpp', 'src/util/dataset_utils.hpp'], [('BinaryDatasetReader', 'src/util/file_reader.hpp'), ('BinaryDatasetWriter', 'src/util/file_writer.hpp')],
  'exhaustive enumeration of files, read sequences and truncation points on the real code against a list-of-rows model', 'Complete within the listed layouts and depths.')
P('D06', 'Iterating a dataset visits every row once, in any order asked for',
  'One pass over a training dataset yields every record exactly once, alone or in batches of any size, with input and expected value of the same row; shuffling permutes, restarting and unshuffling restore; a split and its complement are disjoint and together the whole.',
  ['inputs', 'operation sequences'], 'all sequences of restart, shuffle, next, batch and split operations up to a depth over all small dataset sizes and kinds',
  'Tests iterate one dataset once; partial passes followed by restarts, shuffles and batches are histories.',
  ['src/training_data/training_dataset.hpp', 'src/util/shuffler.hpp', 'src/training_data/training_pair.hpp'], [('TrainingDataSet', 'src/training_data/training_dataset.hpp'), ('Shuffler', 'src/util/shuffler.hpp')],
  'explicit-state exploration of operation sequences on the real datasets against an abstract sequence model', 'All operation sequences up to the stated depth; shuffle order itself is not judged, only that it is a permutation.')
P('D07', 'Column groups select the columns they name',
  'Two column groups are reported to overlap exactly when they share a column. Moving columns of a delimited file keeps every row and every field and puts the fields in the order of the groups.',
  ['inputs'], 'all pairs and triples of column groups over a small range; all orders of groups over small tables',
  'Tests check one order of columns.',
  ['src/util/dataset_utils.hpp'], [('updateColumnPositions and column overlap', 'src/util/dataset_utils.hpp')],
  'exhaustive enumeration of column groups on the real code against set arithmetic', 'Complete within the listed ranges.')
P('D08', 'A crash or storage fault leaves a dataset whole or absent',
  'Whatever file operation of creating a dataset is the last one before a crash, or fails, or writes only partly, the named dataset afterwards is either complete or absent, never partial; a fault that lost data is reported; other files are untouched; and the command succeeds when tried again.',
  ['crash points', 'fault points'], 'every numbered file operation of a creation x crash before it, torn write, single failure, disk full from there',
  'No test injects a fault; each operation of each history is a separate crash point.',
  ['src/util/dataset_utils.hpp', 'src/util/file_writer.hpp', 'src/util/file_reader.hpp', 'src/util/text_file_sorter.hpp'], [('create_binary_dataset_from_delimited_values', 'src/util/dataset_utils.hpp')],
  'exhaustive enumeration of crash points, torn writes and failures over the real code under a fault injector', 'Crash model: a killed process; completed system calls survive. Power loss with reordered writes is not modelled.', level='fault_enumeration')
P('L01', 'Lexing splits every text at the longest tokens and loses nothing',
  'Every text is split into the longest tokens of the language in order, with their exact text and position: keywords in any case, words, numbers, strings with escaped quotes, punctuation; only white space and comments are dropped. A text with a character outside the language is refused, naming its position.',
  ['inputs'], 'all texts up to a length over one character of each class; all pairs and triples of keywords, shortened and extended keywords and literals',
  'Tests lex a few well-formed statements; keyword prefixes, unterminated strings and adjacent tokens are combinations.',
  ['src/lang/lexer/lexer.hpp', 'src/lang/lexer/lexer_patterns.hpp', 'src/lang/lexer/token.hpp', 'src/lang/happyml_script_init.hpp'], [('Lexer::lex', 'src/lang/lexer/lexer.hpp')],
  'exhaustive enumeration of short texts, real lexer against a reference lexer', 'Complete within the alphabet and length.')
P('L02', 'Parsing accepts the documented statements, refuses the rest, never throws',
  'Every program of the documented grammar is accepted; a text outside the widest reading of that grammar is refused with a message that names a position; no text makes parsing throw, crash or hang.',
  ['inputs'], 'the tree of viable token sequences to a depth plus one token beyond; all single and double edits of documented statements',
  'Tests parse a few correct statements; a statement can end or go wrong at every token.',
  ['src/lang/parser/parser.hpp', 'src/lang/lexer/lexer.hpp'], [('Parser::parse', 'src/lang/parser/parser.hpp')],
  'exhaustive exploration of the token tree on the real parser against a reference recognizer', 'Between the documented and the widest grammar either answer passes.')
P('L03', 'A script runs its statements in order and stops at the first failure',
  'A script behaves as its statements one after another: each sees what the earlier ones did, nothing runs after one that fails or exits, a script with a syntax error runs nothing, and exit is reported to the caller. Creating a dataset that exists changes nothing; a failed statement changes no file. The same commands given one by one in a session have the same effects.',
  ['operation sequences'], 'all sequences of commands (help, exit, print, create, failing and malformed ones) up to a depth, as script, script file and single commands',
  'Tests run single scripts; order, failure and exit in every position of a history are combinations.',
  ['src/lang/interpreter.hpp', 'src/lang/statements/', 'src/lang/execution_context.hpp'], [('InterpreterSession::interpretCommands', 'src/lang/interpreter.hpp'), ('CodeBlock::execute', 'src/lang/statements/code_block_statement.hpp')],
  'explicit-state exploration of command sequences on the real interpreter, compared with the composition of single commands', 'Complete up to the stated depth over the listed commands.')
P('L04', 'White space, comments and the case of keywords change nothing',
  'A program spelled with other white space, line breaks or comments between its tokens, or with its keywords in another case, has the same output, errors, result and files.',
  ['inputs'], 'documented statements x separators in every pair of gaps x every subset of keywords in other cases',
  'Tests use one spelling.',
  ['src/lang/lexer/lexer_patterns.hpp', 'src/lang/parser/parser.hpp'], [('keyword, comment and skipped tokens', 'src/lang/lexer/lexer_patterns.hpp')],
  'exhaustive enumeration of spellings executed on the real interpreter against the canonical spelling', 'Complete for the listed statements, separators and gap pairs.')
P('L05', 'An interactive session survives errors and joins continued lines',
  'Lines typed into a session run as the commands they spell: a line that ends in a backslash continues in the next, empty lines do nothing, an error or failing command is reported and the session goes on with its state intact, and exit ends it.',
  ['operation sequences'], 'all sequences of input lines up to a depth; commands broken at every subset of their gaps',
  'No test runs an interactive session.',
  ['src/lang/interpreter.hpp'], [('InterpreterSession::interactiveInterpret', 'src/lang/interpreter.hpp')],
  'explicit-state exploration of line sequences on the real session against the effects of single commands', 'Prompts are not judged.')
P('L06', 'Strings, names and places in a statement arrive exactly as written',
  'A quoted string stands for exactly its characters, with only its own quote escaped by a backslash, as a value, in a list and as the name of a column; the place of a file is read to its end and no further, also when its parts look like keywords, so that the dataset has the rows of exactly that file and the next statement is executed as one; names that differ in any character name different datasets.',
  ['inputs'], 'all strings of up to 3 characters over letters, quotes, backslash, blank, line end and punctuation; all paths of up to 3 of 18 fragments x 5 texts behind; all pairs of 24 names',
  'Tests parse a handful of inputs and never look at what the parsed statement holds.',
  ['src/lang/parser/parser.hpp', 'src/lang/lexer/lexer.hpp', 'src/lang/happyml_script_init.hpp'], [('unescapeString, parseInput, parseLocation', 'src/lang/parser/parser.hpp')],
  'exhaustive enumeration of literals, paths and names executed by the real interpreter; a task with known weights answers which string arrived', 'A string with its own quote behind a backslash, or a backslash at its end, cannot be written.')
P('D10', 'Printing a dataset shows its rows: limited, in order, original or stored',
  'Printing a dataset shows a header naming every column, expected before given, and then the rows in stored order, exactly as many as asked for. Pretty printing shows the original numbers and labels and draws images by brightness; raw printing shows the stored, normalized numbers. It changes no file.',
  ['inputs', 'configurations'], 'all layouts x tables x limits x pretty and raw; all small images and shapes',
  'No test prints a dataset with several columns, rows, channels or a limit.',
  ['src/util/pretty_print_row.hpp', 'src/lang/statements/print_statement.hpp', 'src/training_data/data_decoder.hpp', 'src/util/encoder_decoder_builder.hpp'], [('pretty_print', 'src/util/pretty_print_row.hpp')],
  'exhaustive enumeration of datasets and limits printed by the real interpreter and parsed back', 'Numbers are judged to the three decimals shown.')

P('M03', 'A network computes what its layers say and learns along the gradient of its loss',
  'A network built from any combination of layers predicts the composition of those layers on its inputs, in the order in which they were given, and has the number of parameters they imply. One batch of plain gradient descent moves every parameter by its learning rate times the mean over the batch of the derivative of the loss (plus the L2 term, with errors averaged where a layer feeds several and limited where clipping is on), once, and the training loss reported is the mean over the batches of the epoch.',
  ['inputs', 'configurations', 'histories'], 'all networks of a bounded grammar of layers, shapes, activations, losses, options and graphs x records x batch sizes x epochs',
  'Tests check that some losses go down, which a wrong gradient also achieves; errors in the backward pass of one layer, of several outputs, of a last smaller batch or of a channel hide behind convergence.',
  ['src/ml/neural_network_node.hpp', 'src/ml/neural_network.hpp', 'src/ml/happyml_dsl.hpp', 'src/ml/layers', 'src/ml/losses', 'src/ml/activators', 'src/ml/optimizers/mbgd_optimizer.hpp'],
  [('forward, backward and apply', 'src/ml/neural_network_node.hpp'), ('train', 'src/ml/neural_network.hpp'), ('HappymlDSL::build', 'src/ml/happyml_dsl.hpp')],
  'exhaustive enumeration of networks and batch sequences on the real code, each parameter compared with a reference gradient taken by finite differences',
  'Cases near kinks of activations, losses or clipping are counted and not compared after training; single precision tolerance 2e-3.')
P('M05', 'Knowledge in memory and on disk is what the last operations made it',
  'A model in memory predicts what its last training or load made it predict; saved knowledge holds, byte for byte, what was in memory when it was saved, under the label and model it was saved to, until it is overwritten or removed. Saving without overwriting never changes an earlier save and keeps everything needed to load it; loading a label that is not there throws and changes nothing; training leaves no checkpoint behind.',
  ['histories'], 'all sequences of train, save, load, remove and reload operations up to a depth on several networks, with a clock that stands still',
  'Tests save and load once; overwriting, saving beside, removing and failed loads interact over histories.',
  ['src/ml/neural_network.hpp', 'src/util/data_util.hpp', 'src/ml/happyml_dsl.hpp', 'src/ml/layers', 'src/ml/neural_network_node.hpp'],
  [('saveAs, saveKnowledge and loadKnowledge', 'src/ml/neural_network.hpp'), ('initialize_knowledge_path_directory', 'src/util/data_util.hpp')],
  'explicit-state exploration of operation sequences on the real model against a reference map from label to knowledge', 'Complete up to the stated depth; the knowledge itself is compared by its predictions and files.')
P('M06', 'A loaded model is the model that was saved',
  'Loading a saved model gives the same vertices, connections, inputs, outputs, activations, losses, optimizer and options: it predicts the same values bit for bit for every input, has the same parameters, learns the same from further training, and saves the same files.',
  ['inputs', 'configurations'], 'all networks of a bounded grammar of layers and graphs, saved, loaded, compared, trained on and saved again',
  'Tests load one or two chains; branches, orders of connections and options of every layer are combinations.',
  ['src/ml/happyml_dsl.hpp', 'src/ml/neural_network.hpp', 'src/ml/neural_network_node.hpp', 'src/ml/enums.hpp', 'src/ml/layers'],
  [('loadNeuralNetworkForTraining', 'src/ml/happyml_dsl.hpp'), ('saveAs', 'src/ml/neural_network.hpp')],
  'exhaustive enumeration of networks, real save and load compared with the network in memory', 'Complete for the listed layers, options and graphs.')
P('M01', 'Activations and their derivatives equal their formulas for every input',
  'Every activation function returns its documented function of every finite input within single precision, stays in its range and never decreases; its derivative is the slope of that function; softmax returns probabilities that sum to one, in proportion to the exponentials, for inputs of any size and shape. No finite input gives NaN or infinity.',
  ['inputs'], 'every 32-bit float through every element-wise activation and derivative; all softmax vectors over an alphabet of values',
  'Tests check a handful of inputs; overflow, saturation and the joints of piecewise functions lie at particular floats.',
  ['src/ml/activators/', 'src/types/tensor_views/'], [('activate and derivative', 'src/ml/activators/')],
  'exhaustive enumeration of the whole input space of the real functions (all floats) against formulas in double precision', 'Thorough covers all 2^32 inputs; quick every exponent with 14 bits of fraction.')
P('M02', 'Losses equal their formulas and their derivatives are their slopes',
  'Each loss equals its documented formula for every truth and prediction and every shape; its derivative points along the slope of that loss; every value stays finite, also for saturated predictions; the loss of a perfect prediction is the least.',
  ['inputs'], 'all pairs of a truth and a prediction over all floats of a given number of bits, all pairs of small vectors',
  'Tests check one or two tensors; saturated probabilities and large errors sit at particular floats.',
  ['src/ml/losses/', 'src/ml/loss.hpp'], [('calculateError, compute and partialDerivative', 'src/ml/losses/')],
  'exhaustive enumeration of truth/prediction pairs through the real losses against formulas and difference quotients', 'Complete for the listed precisions; single precision tolerance.')
P('M04', 'Optimizers follow their update rules over every history',
  'Whatever the sequence of batches, layers and epochs, each parameter moves as the update rule of the optimizer says, from the gradients of that parameter alone: plain, momentum, decaying and Adam; weights and biases use their own rate; parameters registered separately never share state.',
  ['histories'], 'all sequences of updates of several parameters and epochs up to a depth on every optimizer',
  'Tests apply one or two updates of one parameter; state shared between parameters or carried wrongly over epochs needs a history.',
  ['src/ml/optimizers/', 'src/ml/optimizer.hpp', 'src/ml/optimizer_factory.hpp'], [('calculateWeightsChange and calculateBiasChange', 'src/ml/optimizers/')],
  'explicit-state exploration of operation sequences on the real optimizers against the recurrences in double precision', 'Complete up to the stated depth over the listed operations.')
P('M07', 'Training stops exactly when its exit strategy says it may',
  'The exit strategy is done as soon as, and only when, one of its documented conditions holds: patience without enough improvement after the fewest epochs, a loss that is good enough, the most epochs, the most time; a new training starts it afresh; and the reason it gives is a condition that holds.',
  ['histories'], 'all sequences of losses and elapsed times up to a length for every combination of limits',
  'Tests follow one course of losses; reaching a limit exactly, ties and improvement after a plateau are histories.',
  ['src/ml/exit_strategy.hpp'], [('isDone and whyDone', 'src/ml/exit_strategy.hpp')],
  'explicit-state exploration of loss sequences on the real strategy against a reference state machine', 'Complete up to the stated depth over the listed losses and limits.')
P('M08', 'Training reports what happened and keeps the knowledge it was asked to keep',
  'For every course of training and test losses: each epoch uses every record once, the exit strategy sees each epoch with its loss, the result reports the losses, best epoch and epochs that really occurred, and afterwards the network holds the knowledge of the last or of the best epoch, as asked, with no checkpoint left behind. A second training begins like the first.',
  ['histories', 'configurations'], 'all courses of losses up to a number of epochs x batch sizes x retention x with and without test data, and all pairs of trainings',
  'Tests train a few easy models to success; ties, rising, not-a-number and infinite losses and second trainings are courses no test takes.',
  ['src/ml/neural_network.hpp', 'src/ml/exit_strategy.hpp', 'src/training_data/training_dataset.hpp'], [('train', 'src/ml/neural_network.hpp')],
  'explicit-state exploration of loss courses driven through the real training loop by a scripted loss, against a reference', 'Complete for the listed losses and number of epochs.')
P('D09', 'A crash or storage fault never turns one knowledge into another',
  'Whatever file operation of saving, loading, removing or training a model is the last one before a crash, or fails, or writes only partly: every label and model then loads as exactly a knowledge that was saved for it or is refused, those not being written are as before, a save that was lost is reported, the model in memory is unchanged, and trying again succeeds.',
  ['crash points', 'fault points'], 'every numbered file operation of ten operations on three networks x crash, torn write, single failure, disk full from there; thorough: a second crash at every step of the second attempt',
  'No test injects a fault; each operation of each history is a separate crash point.',
  ['src/ml/neural_network.hpp', 'src/ml/happyml_dsl.hpp', 'src/types/base_tensors.hpp', 'src/types/tensor_impls/', 'src/ml/layers', 'src/util/data_util.hpp', 'src/util/file_writer.hpp'],
  [('saveAs, saveKnowledge and loadKnowledge', 'src/ml/neural_network.hpp'), ('loadNeuralNetworkForTraining', 'src/ml/happyml_dsl.hpp'), ('BaseTensor::save', 'src/types/base_tensors.hpp')],
  'exhaustive enumeration of crash points, torn writes and failures over the real code under a fault injector', 'Crash model: a killed process; completed system calls survive. Power loss with reordered writes is not modelled.', level='fault_enumeration')
P('M09', 'A search over configurations keeps the better ones and returns the best',
  'Hyperband evaluates every configuration it chose once per round, within the limits of training it was given, keeps the better share for the next round, stops when one is left or the target is met, and the configuration it reports with its loss and saved model is the best of everything it evaluated.',
  ['histories', 'configurations'], 'all sets of configurations (learning rates x depths) up to a size x reduction factors x targets x kinds of dataset; all orders of evaluation',
  'Tests look only at whether some good model comes out; keeping the worse half still finds one on easy data.',
  ['src/ml/hyperband/'], [('hyperband rounds', 'src/ml/hyperband/hyperband.hpp'), ('buildAndTrain, updateBestConfiguration', 'src/ml/hyperband/configuration_evaluator.hpp')],
  'exhaustive enumeration of searches and evaluation orders on the real code, every evaluated model measured again', 'Complete for the listed sets; configurations exactly as good as each other may be kept in either way.')
P('M10', 'Dropout passes on the same amount on average in training as in prediction',
  'In training a dropout layer, for each step anew, passes every element on scaled by one constant or drops it, about as often as its rate says; errors come back through exactly the elements that passed, equally scaled; in prediction it passes on the mean of what training does. In a network, built or loaded, a weight behind it changes exactly when its neuron was kept, and the rate is the one asked for.',
  ['inputs', 'histories', 'configurations'], 'rates x shapes x all assignments of values x steps; networks: rates x widths x places x built or loaded x batches',
  'Tests run networks with dropout to a loose loss; a wrong scale or a mask that does not fit the error still trains.',
  ['src/ml/layers/dropout_layer.hpp', 'src/ml/happyml_dsl.hpp'], [('DropoutLayer', 'src/ml/layers/dropout_layer.hpp'), ('addDropoutLayer', 'src/ml/happyml_dsl.hpp')],
  'exhaustive enumeration of layers, values and training histories on the real code', 'The random draws are one fixed sequence per case; the share kept is judged with a tolerance.')
P('M11', 'Accuracy is the share of rows predicted right; decoding finds the best category',
  'For every dataset, binary accuracy is the share of rows where every value of every output rounds to the truth, categorical accuracy the share where the best category of every output agrees, and both say whether they meet a limit. The best category decoded is the first with the largest score, and the top ones come in falling order with their own scores; a score beyond the known categories is refused.',
  ['inputs', 'configurations'], 'every dataset of up to some rows over small alphabets of predictions and truths, for one or two outputs of one to three values; every vector of scores up to a length',
  'Tests compute accuracy for one trained model; errors need several outputs, ties or rows that are right in one place only.',
  ['src/ml/neural_network.hpp', 'src/training_data/data_decoder.hpp'], [('compute_binary_accuracy, compute_categorical_accuracy', 'src/ml/neural_network.hpp'), ('decodeBest, decodeTop', 'src/training_data/data_decoder.hpp')],
  'exhaustive enumeration of small datasets and score vectors on the real code against a reference', 'Complete for the listed alphabets; halves, which round either way, are left out.')
P('M12', 'Executing a task gives the prediction of its network in the terms of its dataset',
  'For every task, executing it with values, or with a dataset, prints for each row what its network predicts for those values, encoded with the labels and scaling of the dataset the task was created with whatever order or scaling the given dataset has, and decoded into labels or original units. Values that are missing, unknown, surplus, of the wrong kind or the wrong shape are refused with an error, never guessed at.',
  ['inputs', 'configurations', 'histories'], 'given column kinds x predicted column kinds x all combinations of small values x notations x datasets in other scales and label orders x wrong inputs',
  'Tests execute a few tasks on well-formed values and do not compare with the network; scaling and label order errors look like plausible answers.',
  ['src/util/task_utils.hpp', 'src/lang/', 'src/training_data/data_encoder.hpp', 'src/training_data/data_decoder.hpp', 'src/util/file_reader.hpp'],
  [('execute_task_with_inputs, execute_task_with_dataset', 'src/util/task_utils.hpp'), ('happyml_variant', 'src/lang/happyml_variant.hpp')],
  'exhaustive enumeration of tasks, inputs and datasets executed through the real language, against a reference forward pass and scaling', 'Complete for the listed kinds and values; a label whose best two scores nearly tie is not compared.')
P('M13', 'Creating a task ends and leaves a task that works as reported, or none',
  'For every dataset, goal, dataset to test with and random choice, creating a task ends; when it succeeds the task executes on every record without its dataset, knows exactly the columns of the dataset, and when it was reported as accurate predicts at least 90% of the test records right, however those are stored. When it fails there is no task and it can be created afterwards. Creating an existing task changes nothing, and nothing else changes in any case.',
  ['inputs', 'configurations', 'histories'], 'kinds of given and predicted columns x numbers of records x goals x ways of testing x seeds of the random choices, each followed through creation, execution and creation again',
  'Tests create two tasks from large clean datasets; few records, outcomes that cannot be learned, test datasets of other label order or scale, and unlucky random choices never occur.',
  ['src/util/task_utils.hpp', 'src/lang/statements/create_task_statement.hpp', 'src/ml/neural_network.hpp', 'src/util/dataset_utils.hpp'],
  [('create_label_task', 'src/util/task_utils.hpp')],
  'exhaustive enumeration of task lifecycles executed through the real language under fixed random choices and a virtual clock', 'The search for parameters is bounded by a virtual clock, so slow learners end early; complete for the listed configurations.')
P('D11', 'A fault while creating a task never leaves one that is stuck or wrong',
  'Whatever file operation of creating a task is the last one before a crash, or fails, or writes only partly: the task then executes as it would have without the fault or is refused, a creation that reports success left a working task, creating it again succeeds, and every other task and dataset is as before.',
  ['crash points', 'fault points'], 'every numbered file operation of creating five kinds of task x crash, torn write, single failure, disk full from there; thorough: also every read, and a second crash in the second attempt',
  'No test injects a fault; each operation is a separate crash point.',
  ['src/util/task_utils.hpp', 'src/ml/neural_network.hpp', 'src/util/dataset_utils.hpp'], [('create_label_task', 'src/util/task_utils.hpp')],
  'exhaustive enumeration of crash points, torn writes and failures over the real code under a fault injector', 'Crash model: a killed process; completed system calls survive. Power loss with reordered writes is not modelled.', level='fault_enumeration')
P('X01', 'Byte pair encoding loses nothing, whatever was trained, saved or loaded',
  'After every sequence of trainings on texts, files or folders, of configuring, saving and loading, decoding an encoded text gives the text back, and encoding replaces the learned pairs in the order learned. A training keeps earlier codes (on files and folders: replaces them), adds the pairs that occur often enough, most frequent first, no more than asked for and no more than there are codes; codes are distinct and above the delimiter. Saving and loading restore exactly the codes; a cut or missing file is refused, a failing load or training changes nothing, a lost save is reported.',
  ['inputs', 'histories', 'fault points'], 'all sequences of up to 3 (thorough 4) of 15 operations x 3 delimiters x all probe texts up to 4 bytes; every cut of the saved file; running out of codes; files around the buffer size; up to 1600 codes',
  'Tests train once and compare a few encodings; codes reused after a load, pairs learned out of order, files longer than a buffer or cut short never occur.',
  ['src/ml/byte_pair_encoder.hpp', 'src/util/data_util.hpp'], [('BytePairEncoderModel', 'src/ml/byte_pair_encoder.hpp'), ('append_character, u16string_replace_all_to_buffer', 'src/util/data_util.hpp')],
  'exhaustive enumeration of operation sequences on the real encoder, judged by a reference that replaces and counts pairs', 'Which of two equally frequent pairs is learned first is left open; which texts a training with patience keeps for validation is random, so only the codes kept are judged there.')
P('X02', 'Texts reach the network whole: tokens, escapes, one-hot vectors, positions',
  'For every text, its tokens joined are the text (repeated blanks once, carriage returns dropped, unprintable bytes marked), cut at blanks and symbols, the same from memory, through a callback or from a file of any length; lines of a file likewise. Escaping leaves no delimiter or line end and unescaping gives the text back; replacing replaces every occurrence from the left. A one-hot vector has its one at the code and nothing outside; padding, positions and embeddings have the stated sizes and values and refuse what does not fit; a split puts every text in one part exactly.',
  ['inputs', 'configurations'], 'all texts up to 6 over alphabets of 9 to 10 bytes, every byte, every place around the buffer ends of a file, all small patterns and replacements, all sizes of vectors, all orders of up to 5 samples',
  'Tests look at a few sentences; buffer ends, bytes above 127, escapes that look like other escapes and codes at the edge of a vector do not occur.',
  ['src/util/data_util.hpp', 'src/util/text_encoder_decoder.hpp', 'src/util/one_hot_encoder.hpp', 'src/ml/rotary_positional_embedding.hpp', 'src/util/text_embedder.hpp'],
  [('string_to_tokens, load_file_to_tokens, load_file_to_lines, splitData', 'src/util/data_util.hpp'), ('TextEncoderDecoder', 'src/util/text_encoder_decoder.hpp'), ('one_hot_encode_bpe_tokens', 'src/util/one_hot_encoder.hpp'), ('RotaryPositionalEmbedder', 'src/ml/rotary_positional_embedding.hpp')],
  'exhaustive enumeration of texts, buffer positions and settings on the real code against independent definitions', 'Complete for the listed alphabets and lengths.')
P('X03', 'The word tree and the cache of recent keys answer like plain lists',
  'After every sequence of insertions the word tree finds exactly the words inserted with their last values, knows exactly their prefixes, and completes a prefix to a longest stored word that begins with it; the cache holds exactly the last distinct keys up to its capacity, whatever was inserted again.',
  ['histories', 'inputs'], 'all sequences of up to 4 (5) insertions of the words up to 3 letters x all queries up to 4 letters; all sequences of up to 7 (9) keys x capacities 0 to 5; long words, many words, large caches',
  'Tests insert a handful of words in one order; the cache is not tested at all.',
  ['src/types/trie.hpp', 'src/util/lru_cache.h'], [('Trie', 'src/types/trie.hpp'), ('LruCache', 'src/util/lru_cache.h')],
  'exhaustive enumeration of operation sequences on the real classes against list models', 'Complete for the listed words, keys and depths; which of several longest words completes a prefix is left open.')
