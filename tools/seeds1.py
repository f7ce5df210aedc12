from seed import seed
seed('D03a', 'D03', 'a data line that equals the header line and sorts before every other line',
     'Duplicate removal also treats the header as a line already written, so the data line is lost.',
     [('util/text_file_sorter.hpp', "            if (has_header) {\n                output << header << '\\n';\n            }\n\n//", "            if (has_header) {\n                output << header << '\\n';\n                previous_line = header;\n            }\n\n//"),
      ('util/text_file_sorter.hpp', '            bool first_record = true;\n            while', '            bool first_record = !has_header;\n            while')],
     r"""
#include "util/text_file_sorter.hpp"
using namespace std;
int main() {
    filesystem::create_directories("d");
    { ofstream o("d/in.txt"); o << "a\nb\na\nb\n"; }
    if (!happyml::FileSorter::sort("d/in.txt", "d/out.txt", true, 2, true)) return 2;
    ifstream i("d/out.txt"); stringstream s; s << i.rdbuf();
    cout << s.str();
    return s.str() == "a\na\nb\n" ? 0 : 1;
}
""")
seed('D05a', 'D05', 'a label column one of whose labels is the empty text',
     'Reading the header drops an empty label, so every later label moves one place and rows decode to the wrong label.',
     [('util/file_reader.hpp', '                metadata->ordered_labels.push_back(label);', '                if (!label.empty()) {\n                    metadata->ordered_labels.push_back(label);\n                }')],
     r"""
#include "util/file_reader.hpp"
#include "util/file_writer.hpp"
#include "util/tensor_utils.hpp"
using namespace std; using namespace happyml;
int main() {
    auto m = make_shared<BinaryColumnMetadata>();
    m->purpose = 'L'; m->is_standardized = false; m->mean = 0; m->standard_deviation = 1; m->is_normalized = false; m->min_value = 0; m->max_value = 1;
    m->source_column_count = 1; m->rows = m->channels = 1; m->columns = 2; m->name = "x"; m->ordered_labels = {"", "b"};
    { BinaryDatasetWriter w("d.bin", {m}, 0); w.writeRow({columnVector({0, 1})}, {}); w.close(); }
    BinaryDatasetReader r("d.bin");
    return r.getGivenTensorOrderedLabels(0) == vector<string>{"", "b"} ? 0 : 1;
}
""")
seed('D06a', 'D06', 'restarting a dataset after only part of it was visited',
     'A restart in the middle of a pass does not go back to the first record.',
     [('training_data/training_dataset.hpp', '        size_t recordCount() override {\n            return pairs.size();\n        }\n\n        void restart() override {\n            current_offset = 0;',
       '        size_t recordCount() override {\n            return pairs.size();\n        }\n\n        void restart() override {\n            current_offset = current_offset < recordCount() ? current_offset : 0;')],
     r'''
#include "util/file_reader.hpp"
#include "util/file_writer.hpp"
#include "training_data/training_dataset.hpp"
#include "util/tensor_utils.hpp"
using namespace std; using namespace happyml;
int main() {
    InMemoryTrainingDataSet d;
    for (int i = 0; i < 3; i++) d.addTrainingData(columnVector({(float) i}), (float) i);
    d.nextRecord();
    d.restart();
    return d.nextRecord()->getGiven()[0]->getValue(0, 0, 0) == 0 ? 0 : 1;
}
''')
seed('D02a', 'D02', 'a field that holds a line break',
     'A field with line breaks loses the break because lines of a quoted field are joined with a space.',
     [('util/file_reader.hpp', "                    current_word += '\\n';", "                    current_word += current_word.empty() ? '\\n' : ' ';")],
     r'''
#include "util/file_reader.hpp"
#include "util/file_writer.hpp"
using namespace std; using namespace happyml;
int main() {
    { ofstream o("a.csv"); o << "\"x\ny\",z\n"; }
    DelimitedTextFileReader r("a.csv");
    auto rec = r.nextRecord();
    for (auto &f: rec) cout << "[" << f << "]" << endl;
    return rec == vector<string>{"x\ny", "z"} ? 0 : 1;
}
''')

seed('D04a', 'D04', 'a number group of several rows that is not square, or of several channels and columns',
     'Values of a multi-row input land in the wrong place: the position in the source row is computed with the number of rows where the number of columns belongs.',
     [('training_data/data_encoder.hpp', '                        result[channel][row][column] = stringToFloat(word);\n                        offset++;',
       '                        result[channel][row][column] = stringToFloat(word);\n                        offset = (channel * rows + row) * rows + column + 1;')],
     r"""
#include "util/file_reader.hpp"
#include "util/file_writer.hpp"
#include "util/dataset_utils.hpp"
using namespace std; using namespace happyml;
int main() {
    TextToScalarEncoder e;
    for (auto s: vector<array<size_t, 3>>{{2, 3, 1}, {3, 2, 2}, {1, 4, 2}, {2, 2, 2}}) {
        vector<string> words;
        for (size_t i = 0; i < s[0] * s[1] * s[2]; i++) words.push_back(to_string(i));
        auto t = e.encode(words, s[0], s[1], s[2], true);
        size_t n = 0;
        for (size_t c = 0; c < s[2]; c++) for (size_t r = 0; r < s[0]; r++) for (size_t k = 0; k < s[1]; k++) if (t->getValue(r, k, c) != (float) n++) return 1;
    }
    return 0;
}
""")
