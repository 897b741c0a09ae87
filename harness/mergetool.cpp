// A merge with removal of its inputs through the operation queue (C11): the
// library's option that the command line tool does not offer.
#include <pwned-lib/operationqueue.hpp>
#include <pwned-merger-cli/inputfile.hpp>
#include <pwned-merger-cli/mergeoperation.hpp>

int main(int argc, char **argv)
{
  if (argc < 3) return 2;
  std::vector<merger::InputFile> files;
  for (int i = 2; i < argc; ++i) files.emplace_back(argv[i]);
  pwned::OperationQueue<merger::MergeOperation> queue;
  queue.add(new merger::MergeOperation(files, argv[1], true));
  queue.execute(true);
  queue.waitForFinished();
  return queue.hasFailed() ? 1 : 0;
}
