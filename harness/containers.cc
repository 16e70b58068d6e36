// Runs the operations on stdin on the dictionary and the stack of pasm, and prints what they answer.
// "new dict", "new stack" start an empty container, "end" prints the answers.
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <iostream>
#include <sstream>

#include "dictionary.h"
#include "stacks.h"

static dictionary_ptr dict_ = nullptr;
static stack_ptr stack_ = nullptr;

static std::string filler(int n, int i)
{
    return "filler_" + std::to_string(n) + "_" + std::to_string(i);
}

int main()
{
    std::string line;
    while (std::getline(std::cin, line))
    {
        std::istringstream in(line);
        std::string op, a;
        int v = 0, answer = 0;
        in >> op;
        if (op == "new")
        {
            in >> a;
            if (a == "dict") dict_ = dict_create(sizeof(int), 0);   // the old one is not worth freeing
            else
            {
                if (stack_) free_stack(stack_);
                stack_ = create_stack(sizeof(int));
            }
            continue;
        }
        if (op == "end") { std::cout << "\n"; continue; }
        if (op == "ins")
        {
            in >> a >> v;
            std::vector<char> k(a.c_str(), a.c_str() + a.size() + 1);
            dict_insert(&dict_, k.data(), &v);
        }
        else if (op == "get")
        {
            in >> a;
            const int* p = static_cast<int*>(dict_search(dict_, a.c_str()));
            answer = p ? *p : 0;
        }
        else if (op == "del") { in >> a; dict_delete(dict_, a.c_str()); }
        else if (op == "many")
        {
            in >> v;
            for (int i = 0; i < 1000; i++)
            {
                std::string k = filler(v, i);
                int x = v * 1000 + i;
                std::vector<char> b(k.c_str(), k.c_str() + k.size() + 1);
                dict_insert(&dict_, b.data(), &x);
            }
        }
        else if (op == "thin")      // every third filler of the batch
        {
            in >> v;
            for (int i = 0; i < 1000; i += 3)
            {
                std::string k = filler(v, i);
                dict_delete(dict_, k.c_str());
            }
        }
        else if (op == "sum")       // how many fillers of the batch have their value
        {
            in >> v;
            for (int i = 0; i < 1000; i++)
            {
                std::string k = filler(v, i);
                const int* p = static_cast<int*>(dict_search(dict_, k.c_str()));
                if (p != nullptr && *p == v * 1000 + i) answer++;
            }
        }
        else if (op == "push") { in >> v; answer = static_cast<int>(stack_->push(stack_->instance, &v)); }
        else if (op == "burst")
        {
            in >> v;
            for (int j = 1; j <= 30; j++)
            {
                int x = v * 1000 + j;
                answer = static_cast<int>(stack_->push(stack_->instance, &x));
            }
        }
        else if (op == "pop") answer = *static_cast<int*>(stack_->pop(stack_->instance));
        else if (op == "popmany")
            for (int j = 1; j <= 29; j++) answer = *static_cast<int*>(stack_->pop(stack_->instance));
        else if (op == "top") answer = *static_cast<int*>(stack_->top(stack_->instance));
        else if (op == "at") { in >> v; answer = *static_cast<int*>(stack_->item_at(stack_->instance, v)); }
        else if (op == "clear") stack_->clear(stack_->instance);
        std::cout << answer << " ";
    }
    return 0;
}
