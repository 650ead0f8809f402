// What the Java binding does with the resolver that tflite/java provides.
#include <cstdlib>
#include "tensorflow/lite/interpreter.h"
#include "tensorflow/lite/kernels/register.h"
#include "tensorflow/lite/model.h"
namespace tflite { std::unique_ptr<OpResolver> CreateOpResolver(); }
int main(int argc, char** argv) {
  if (argc != 2) return 1;
  auto model = tflite::FlatBufferModel::BuildFromFile(argv[1]);
  if (!model) return 1;
  auto resolver = tflite::CreateOpResolver();
  if (!resolver) return 1;
  std::unique_ptr<tflite::Interpreter> interpreter;
  if (tflite::InterpreterBuilder(*model, *resolver)(&interpreter) != kTfLiteOk || !interpreter) return 1;
  if (interpreter->AllocateTensors() != kTfLiteOk) return 1;
  for (int i = 0; i < 2; i++) if (interpreter->Invoke() != kTfLiteOk) return 1;
  return 0;
}
