#pragma once
// Host replacement of the parts of the Arduino core which are used by the library; implemented by the harness.
extern "C++" {
unsigned long millis();
void noInterrupts();
void interrupts();
}
